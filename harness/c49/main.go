//go:build !noshim

// C49: order, place and surroundings of prediction and reconstruction within a block.
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/txm"
)

var wide = []int{4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 32, 64, 64, 64, 128, 128, 4, 16, 8, 32, 16, 64}
var high = []int{4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 64, 32, 64, 128, 64, 128, 16, 4, 32, 8, 64, 16}

const (
	room   = 320
	tables = 64
)

type plane = [][]int

type work struct {
	t        *tilegroup.TileGroup
	s        *state.State
	b        *bitstream.BitStream
	own      [3]plane // the model's frame
	log      [][]int
	want     [][]int
	predict  int
	eob      func(n int) int
	tokens   int
	touched  [3][4]int
	ownBlock [3][34][34]bool
	ownTx    [3][tables][tables]int
}

var workers sync.Map

func room3() (f [3]plane) {
	for p := range f {
		f[p] = make(plane, room)
		for y := range f[p] {
			f[p][y] = make([]int, room)
		}
	}
	return
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	b := bitstream.NewBitStream(make([]byte, 16))
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}, b: &b}
	w.s.CurrFrame = room3()
	w.own = room3()
	workers.Store(w.t, w)
	c.Local["w"] = w
	return w
}

func ints(kind int, args []interface{}) []int {
	out := []int{kind}
	for _, a := range args {
		switch v := a.(type) {
		case int:
			out = append(out, v)
		case bool:
			out = append(out, b2i(v))
		}
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

const (
	intraEvent = iota
	interEvent
	coeffsEvent
	reconEvent
)

var names = []string{"intra prediction", "inter prediction", "coefficients", "reconstruction"}

func describe(e []int) string {
	if e == nil {
		return "nothing"
	}
	switch e[0] {
	case intraEvent:
		return fmt.Sprintf("intra prediction of plane %d at (%d,%d), left %d above %d above right %d below left %d, mode %d, log2 size %dx%d", e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10])
	case interEvent:
		return fmt.Sprintf("inter prediction of plane %d at (%d,%d), %dx%d, vectors of row %d column %d", e[1], e[2], e[3], e[4], e[5], e[6], e[7])
	}
	return fmt.Sprintf("%s of plane %d at (%d,%d), transform size %d", names[e[0]], e[1], e[2], e[3], e[4])
}

// stub data: what stand-ins put into the frame.
func paint(f plane, x, y, w, h, n, mask int) {
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			f[y+i][x+j] = (n*37 + i*(3+n%5) + j*(5+n%3) + i*j) & mask
		}
	}
}

func add(f plane, x, y, w, h, n, mask int) {
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			f[y+i][x+j] = (f[y+i][x+j] + n*5 + i + 7*j) & mask
		}
	}
}

func worker(t *tilegroup.TileGroup) *work {
	v, _ := workers.Load(t)
	return v.(*work)
}

func stubs() {
	tilegroup.VerifStub["predictIntra"] = func(t *tilegroup.TileGroup, args ...interface{}) {
		w := worker(t)
		e := ints(intraEvent, args)
		w.log = append(w.log, e)
		w.predict++
		if len(e) > 10 && e[9] < 8 && e[10] < 8 {
			paint(w.s.CurrFrame[e[1]], e[2], e[3], 1<<uint(e[9]), 1<<uint(e[10]), w.predict, w.mask())
		}
	}
	tilegroup.VerifStub["predictInter"] = func(t *tilegroup.TileGroup, args ...interface{}) {
		w := worker(t)
		e := ints(interEvent, args)
		w.log = append(w.log, e)
		w.predict++
		paint(w.s.CurrFrame[e[1]], e[2], e[3], e[4], e[5], w.predict, w.mask())
	}
	tilegroup.VerifStubInt["coeffs"] = func(t *tilegroup.TileGroup, args ...interface{}) int {
		w := worker(t)
		w.log = append(w.log, ints(coeffsEvent, args))
		w.tokens++
		return w.eob(w.tokens)
	}
	tilegroup.VerifStub["reconstruct"] = func(t *tilegroup.TileGroup, args ...interface{}) {
		w := worker(t)
		e := ints(reconEvent, args)
		w.log = append(w.log, e)
		add(w.s.CurrFrame[e[1]], e[2], e[3], 1<<uint(txm.Sizes[e[4]][0]), 1<<uint(txm.Sizes[e[4]][1]), w.tokens, w.mask())
	}
}

var depth sync.Map

func (w *work) mask() int { v, _ := depth.Load(w); return 1<<uint(v.(int)) - 1 }

// Block is a block and what is around it.
type Block struct {
	R, C, Size           int
	Rows, Cols           int
	Sb128                bool
	Mono                 bool
	SubX, SubY           int
	Depth                int
	Inter, Skip          bool
	Lossless             bool
	Tx                   int
	Tree                 func(r, c int) int
	Left, Above          bool
	LeftC, AboveC        bool
	Mode, UV             int
	AlphaU, AlphaV       int
	Pal, PalUV           int
	Eob                  func(n int) int
	Decoded              func(p, y, x int) bool
	InterIntra           bool
	II                   int
	Ref                  int
	Intra                func(r, c int) bool // intra blocks around
	chroma               bool
	maxW, maxH, predicts int
	tokens               int
}

func size(w, h int) int {
	for i, s := range txm.Sizes {
		if 1<<uint(s[0]) == w && 1<<uint(s[1]) == h {
			return i
		}
	}
	panic("no such size")
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// transform is one transform block, at sample (x, y) of the plane.
func (b *Block) transform(w *work, p, x, y, tw, th int) {
	sx, sy := 0, 0
	if p > 0 {
		sx, sy = b.SubX, b.SubY
	}
	if x >= b.Cols*4>>uint(sx) || y >= b.Rows*4>>uint(sy) {
		return
	}
	mask := 15
	if b.Sb128 {
		mask = 31
	}
	row, col := y<<uint(sy)/4, x<<uint(sx)/4
	br, bc := row&mask>>uint(sy)+1, col&mask>>uint(sx)+1
	baseX, baseY := b.C>>uint(sx)*4, b.R>>uint(sy)*4
	f := w.own[p]
	tx := size(tw, th)
	if !b.Inter {
		pal := b.Pal
		if p > 0 {
			pal = b.PalUV
		}
		if pal > 0 {
			for i := 0; i < th; i++ {
				for j := 0; j < tw; j++ {
					f[y+i][x+j] = colour(p, at(p, y-baseY+i, x-baseX+j, pal), 1<<uint(b.Depth)-1)
				}
			}
		} else {
			mode := b.Mode
			left, above := b.Left, b.Above
			if p > 0 {
				mode = b.UV
				left, above = b.LeftC, b.AboveC
			}
			cfl := p > 0 && b.UV == 13
			if cfl {
				mode = 0
			}
			w.want = append(w.want, []int{intraEvent, p, x, y, b2i(left || x > baseX), b2i(above || y > baseY),
				b2i(w.ownBlock[p][br-1][bc+tw/4]), b2i(w.ownBlock[p][br+th/4][bc-1]), mode, txm.Sizes[tx][0], txm.Sizes[tx][1]})
			b.predicts++
			paint(f, x, y, tw, th, b.predicts, 1<<uint(b.Depth)-1)
			if cfl {
				b.fromLuma(w, p, x, y, tw, th)
			}
		}
		if p == 0 {
			b.maxW, b.maxH = x+tw, y+th
		}
	}
	if !b.Skip {
		w.want = append(w.want, []int{coeffsEvent, p, x, y, tx})
		b.tokens++
		if b.Eob(b.tokens) > 0 {
			w.want = append(w.want, []int{reconEvent, p, x, y, tx})
			add(f, x, y, tw, th, b.tokens, 1<<uint(b.Depth)-1)
		}
	}
	for i := 0; i < th/4; i++ {
		for j := 0; j < tw/4; j++ {
			w.ownTx[p][y/4+i][x/4+j] = tx
			w.ownBlock[p][br+i][bc+j] = true
		}
	}
}

func (b *Block) fromLuma(w *work, p, x, y, tw, th int) {
	alpha := b.AlphaU
	if p == 2 {
		alpha = b.AlphaV
	}
	l := make([]int, tw*th)
	sum := 0
	for i := 0; i < th; i++ {
		for j := 0; j < tw; j++ {
			ly := least((y+i)<<uint(b.SubY), b.maxH-1-b.SubY)
			lx := least((x+j)<<uint(b.SubX), b.maxW-1-b.SubX)
			v := 0
			for dy := 0; dy <= b.SubY; dy++ {
				for dx := 0; dx <= b.SubX; dx++ {
					v += w.own[0][ly+dy][lx+dx]
				}
			}
			l[i*tw+j] = v * 8 >> uint(b.SubX+b.SubY)
			sum += l[i*tw+j]
		}
	}
	mean := (sum + tw*th/2) / (tw * th)
	for i := 0; i < th; i++ {
		for j := 0; j < tw; j++ {
			s := alpha * (l[i*tw+j] - mean)
			if s < 0 {
				s = -((32 - s) >> 6)
			} else {
				s = (s + 32) >> 6
			}
			w.own[p][y+i][x+j] = most(0, least(1<<uint(b.Depth)-1, w.own[p][y+i][x+j]+s))
		}
	}
}

// at is the palette index of a position, colour the colours.
func at(p, y, x, n int) int {
	if p > 0 {
		return (x*3 + y*5 + x*y>>2 + 1) % n
	}
	return (x + y*3 + x*y>>1) % n
}

func colour(p, i, mask int) int { return (p*50 + i*31 + i*i + 3) & mask }

func (b *Block) tree(w *work, x, y, tw, th int) {
	if x >= b.Cols*4 || y >= b.Rows*4 {
		return
	}
	s := txm.Sizes[b.Tree(y/4, x/4)]
	switch {
	case tw <= 1<<uint(s[0]) && th <= 1<<uint(s[1]):
		b.transform(w, 0, x, y, tw, th)
	case tw > th:
		b.tree(w, x, y, tw/2, th)
		b.tree(w, x+tw/2, y, tw/2, th)
	case tw < th:
		b.tree(w, x, y, tw, th/2)
		b.tree(w, x, y+th/2, tw, th/2)
	default:
		for k := 0; k < 4; k++ {
			b.tree(w, x+k%2*(tw/2), y+k/2*(th/2), tw/2, th/2)
		}
	}
}

func (b *Block) planes() int {
	if b.chroma {
		return 3
	}
	return 1
}

// place sets up both sides. It is false if the block cannot be.
func (b *Block) place(w *work) bool {
	bw, bh := wide[b.Size], high[b.Size]
	if b.R >= b.Rows || b.C >= b.Cols || b.SubX == 1 && b.SubY == 0 && bh > bw {
		return false
	}
	if !b.Sb128 && most(bw, bh) > 64 {
		return false
	}
	b.chroma = !b.Mono && (b.SubY == 0 || b.R&1 == 1 || bh > 4) && (b.SubX == 0 || b.C&1 == 1 || bw > 4)
	t, s := w.t, w.s
	depth.Store(w, b.Depth)
	w.log, w.want, w.predict, w.tokens, w.eob = w.log[:0], w.want[:0], 0, 0, b.Eob
	b.predicts, b.tokens = 0, 0
	s.MiRow, s.MiCol, s.MiSize, s.MiRows, s.MiCols = b.R, b.C, b.Size, b.Rows, b.Cols
	s.AvailL, s.AvailU, s.AvailLChroma, s.AvailUChroma = b.Left, b.Above, b.LeftC, b.AboveC
	t.HasChroma = b.chroma
	t.IsInter, t.Skip, t.Lossless = b2i(b.Inter), b2i(b.Skip), b.Lossless
	s.IsInter, s.Skip = t.IsInter, t.Skip
	t.TxSize = b.Tx
	t.YMode, t.UVMode, t.CflAlphaU, t.CflAlphaV = b.Mode, b.UV, b.AlphaU, b.AlphaV
	t.PaletteSizeY, t.PaletteSizeUV = b.Pal, b.PalUV
	t.MaxLumaW, t.MaxLumaH = 0, 0
	b.maxW, b.maxH = 0, 0
	for i := 0; i < 8; i++ {
		t.PaletteColorsY[i], t.PaletteColorsU[i], t.PaletteColorsV[i] = colour(0, i, 1<<uint(b.Depth)-1), colour(1, i, 1<<uint(b.Depth)-1), colour(2, i, 1<<uint(b.Depth)-1)
	}
	if b.Pal > 0 || b.PalUV > 0 {
		for y := 0; y < 64; y++ {
			for x := 0; x < 64; x++ {
				t.ColorMapY[y][x], t.ColorMapUV[y][x] = 99, 99
				if b.Pal > 0 {
					t.ColorMapY[y][x] = at(0, y, x, b.Pal)
				}
				if b.PalUV > 0 {
					t.ColorMapUV[y][x] = at(1, y, x, b.PalUV)
				}
			}
		}
	}
	for p := 0; p < 3; p++ {
		for y := 0; y < 34; y++ {
			for x := 0; x < 34; x++ {
				w.ownBlock[p][y][x] = b.Decoded(p, y, x)
			}
		}
		s.BlockDecoded[p] = w.ownBlock[p]
		sx, sy := 0, 0
		if p > 0 {
			sx, sy = b.SubX, b.SubY
		}
		y0, x0 := most(0, b.R>>uint(sy)-3), most(0, b.C>>uint(sx)-3)
		y1, x1 := least(tables, b.R>>uint(sy)+bh/4+3), least(tables, b.C>>uint(sx)+bw/4+3)
		w.touched[p] = [4]int{y0, y1, x0, x1}
		for y := y0; y < y1; y++ {
			for x := x0; x < x1; x++ {
				w.ownTx[p][y][x] = 20 + p
				t.LoopFilterTxSizes[p][y][x] = 20 + p
			}
		}
		for y := y0 * 4; y < y1*4; y++ {
			for x := x0 * 4; x < x1*4; x++ {
				v := (y*9 + x*13 + p*77 + x*y>>3) & (1<<uint(b.Depth) - 1)
				w.own[p][y][x], s.CurrFrame[p][y][x] = v, v
			}
		}
	}
	if b.Inter && b.Tree != nil {
		for y := 0; y < bh/4; y++ {
			for x := 0; x < bw/4; x++ {
				t.InterTxSizes[b.R+y][b.C+x] = b.Tree(b.R+y, b.C+x)
			}
		}
	}
	return true
}

func (b *Block) heads() (sequenceheader.SequenceHeader, uncompressedheader.UncompressedHeader) {
	sh := sequenceheader.SequenceHeader{Use128x128SuperBlock: b.Sb128}
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes = b.Depth, 3
	if b.Mono {
		sh.ColorConfig.MonoChrome, sh.ColorConfig.NumPlanes = true, 1
	}
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = b.SubX == 1, b.SubY == 1
	return sh, uncompressedheader.UncompressedHeader{}
}

func (b *Block) String() string {
	return fmt.Sprintf("%dx%d block at row %d column %d of %dx%d, superblocks of 128: %v, subsampling %d%d mono %v, inter %v skip %v lossless %v, transform size %d, mode %d/%d palettes %d/%d",
		wide[b.Size], high[b.Size], b.R, b.C, b.Rows, b.Cols, b.Sb128, b.SubX, b.SubY, b.Mono, b.Inter, b.Skip, b.Lossless, b.Tx, b.Mode, b.UV, b.Pal, b.PalUV)
}

// compare looks at the log, the frame and what is kept.
func (b *Block) compare(w *work) *mc.Fail {
	for i := 0; i < most(len(w.log), len(w.want)); i++ {
		var g, x []int
		if i < len(w.log) {
			g = w.log[i]
		}
		if i < len(w.want) {
			x = w.want[i]
		}
		if fmt.Sprint(g) != fmt.Sprint(x) {
			return mc.Failf("order of prediction and reconstruction", "%v: step %d is %s, want %s", b, i+1, describe(g), describe(x))
		}
	}
	for p := 0; p < 3; p++ {
		y0, y1, x0, x1 := w.touched[p][0], w.touched[p][1], w.touched[p][2], w.touched[p][3]
		for y := y0 * 4; y < y1*4; y++ {
			for x := x0 * 4; x < x1*4; x++ {
				if w.s.CurrFrame[p][y][x] != w.own[p][y][x] {
					return mc.Failf("sample of the block", "%v: sample (%d,%d) of plane %d is %d, want %d", b, x, y, p, w.s.CurrFrame[p][y][x], w.own[p][y][x])
				}
			}
		}
		for y := y0; y < y1; y++ {
			for x := x0; x < x1; x++ {
				if g := w.t.LoopFilterTxSizes[p][y][x]; g != w.ownTx[p][y][x] {
					return mc.Failf("transform size kept for the loop filter", "%v: row %d column %d of plane %d has %d, want %d", b, y, x, p, g, w.ownTx[p][y][x])
				}
			}
		}
		if w.s.BlockDecoded[p] != w.ownBlock[p] {
			for y := 0; y < 34; y++ {
				for x := 0; x < 34; x++ {
					if g := w.s.BlockDecoded[p][y][x]; g != w.ownBlock[p][y][x] {
						return mc.Failf("what is decoded of the superblock", "%v: row %d column %d of plane %d: %v, want %v", b, y-1, x-1, p, g, w.ownBlock[p][y][x])
					}
				}
			}
		}
	}
	return nil
}

func (b *Block) residual(c *mc.Ch, w *work) *mc.Fail {
	if !b.place(w) {
		return nil
	}
	bw, bh := wide[b.Size], high[b.Size]
	for cy := 0; cy < bh; cy += 64 {
		for cx := 0; cx < bw; cx += 64 {
			for p := 0; p < b.planes(); p++ {
				sx, sy := uint(0), uint(0)
				if p > 0 {
					sx, sy = uint(b.SubX), uint(b.SubY)
				}
				pw, ph := most(4, least(bw, 64)>>sx), most(4, least(bh, 64)>>sy)
				x, y := b.C>>sx*4+cx>>sx, b.R>>sy*4+cy>>sy
				if b.Inter && !b.Lossless && p == 0 {
					b.tree(w, x, y, pw, ph)
					continue
				}
				tw, th := 4, 4
				if !b.Lossless {
					if p == 0 {
						tw, th = 1<<uint(txm.Sizes[b.Tx][0]), 1<<uint(txm.Sizes[b.Tx][1])
					} else {
						tw, th = least(32, most(4, bw>>sx)), least(32, most(4, bh>>sy))
					}
				}
				for i := 0; i < ph; i += th {
					for j := 0; j < pw; j += tw {
						b.transform(w, p, x+j, y+i, tw, th)
					}
				}
			}
		}
	}
	sh, uh := b.heads()
	if e := mc.Catch(func() { tilegroup.VerifResidual(w.t, sh, w.s, w.b, uh) }); e != nil {
		return mc.Failf("panic in residual", "%v: %v", b, e)
	}
	c.Inner++
	c.Steps += int64(len(w.want))
	return b.compare(w)
}

func (b *Block) prediction(c *mc.Ch, w *work) *mc.Fail {
	if !b.place(w) {
		return nil
	}
	t, s := w.t, w.s
	bw, bh := wide[b.Size], high[b.Size]
	s.RefFrame = [2]int{b.Ref, -1}
	if b.InterIntra {
		s.RefFrame[1] = 0
	}
	t.InterIntraMode = b.II
	for y := most(0, b.R-2); y < least(64, b.R+bh/4+2); y++ {
		for x := most(0, b.C-2); x < least(64, b.C+bw/4+2); x++ {
			s.RefFrames[y][x] = [2]int{2, -1}
			if b.Intra(y, x) {
				s.RefFrames[y][x] = [2]int{0, -1}
			}
			if y >= b.R && y < b.R+bh/4 && x >= b.C && x < b.C+bw/4 {
				s.RefFrames[y][x] = s.RefFrame
			}
		}
	}
	mask := 15
	if b.Sb128 {
		mask = 31
	}
	for p := 0; p < b.planes(); p++ {
		sx, sy := uint(0), uint(0)
		left, above := b.Left, b.Above
		if p > 0 {
			sx, sy = uint(b.SubX), uint(b.SubY)
			left, above = b.LeftC, b.AboveC
		}
		pw, ph := most(4, bw>>sx), most(4, bh>>sy)
		x, y := b.C>>sx*4, b.R>>sy*4
		if !b.Inter {
			continue
		}
		if b.InterIntra {
			br, bc := b.R&mask>>sy+1, b.C&mask>>sx+1
			w.want = append(w.want, []int{intraEvent, p, x, y, b2i(left), b2i(above), b2i(w.ownBlock[p][br-1][bc+pw/4]), b2i(w.ownBlock[p][br+ph/4][bc-1]),
				[]int{0, 1, 2, 9}[b.II], txm.Sizes[size64(pw)][0], txm.Sizes[size64(ph)][0]})
			b.predicts++
			paint(w.own[p], x, y, pw, ph, b.predicts, 1<<uint(b.Depth)-1)
		}
		// chroma of small blocks is predicted from the vectors of each, unless one is intra
		rows, cols := 1, 1
		if bw>>sx < 4 {
			cols = 2
		}
		if bh>>sy < 4 {
			rows = 2
		}
		ends := [4]int{b.R - rows + 1, b.R + bh/4, b.C - cols + 1, b.C + bw/4}
		for i := ends[0]; i < ends[1]; i++ {
			for j := ends[2]; j < ends[3]; j++ {
				if s.RefFrames[i][j][0] == 0 {
					rows, cols = 1, 1
				}
			}
		}
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				b.predicts++
				w.want = append(w.want, []int{interEvent, p, x + pw/cols*j, y + ph/rows*i, pw / cols, ph / rows, b.R - rows + 1 + i, b.C - cols + 1 + j})
				paint(w.own[p], x+pw/cols*j, y+ph/rows*i, pw/cols, ph/rows, b.predicts, 1<<uint(b.Depth)-1)
			}
		}
	}
	sh, uh := b.heads()
	if e := mc.Catch(func() { tilegroup.VerifComputePrediction(w.t, sh, w.s, uh) }); e != nil {
		return mc.Failf("panic in prediction", "%v: %v", b, e)
	}
	c.Inner++
	c.Steps += int64(len(w.want))
	return b.compare(w)
}

// size64 is the index of the square size.
func size64(n int) int {
	for i := 0; i < 5; i++ {
		if 4<<uint(i) == n {
			return i
		}
	}
	return 5
}

func plain() Block {
	return Block{R: 16, C: 16, Rows: 64, Cols: 64, SubX: 1, SubY: 1, Depth: 8, Left: true, Above: true, LeftC: true, AboveC: true,
		Eob: func(n int) int { return n % 3 }, Decoded: func(p, y, x int) bool { return y == 0 || x == 0 }, Ref: 1, AlphaU: 5, AlphaV: -9,
		Intra: func(r, c int) bool { return false }}
}

func (b *Block) format(n int) {
	switch n {
	case 1:
		b.SubX, b.SubY = 0, 0
	case 2:
		b.SubX, b.SubY = 1, 0
	case 3:
		b.Mono = true
	}
}

// spot is a place that a block of the size can have within a superblock.
func (b *Block) spot(c *mc.Ch, cost int) {
	w4, h4 := wide[b.Size]/4, high[b.Size]/4
	if c.Pick(2, cost) == 1 {
		b.Sb128 = true
	}
	sb := 16
	if b.Sb128 {
		sb = 32
	}
	switch c.Pick(4, cost) {
	case 0:
		b.R, b.C = sb, sb
	case 1:
		b.R, b.C = sb+sb-h4, sb
	case 2:
		b.R, b.C = sb, sb+sb-w4
	case 3:
		b.R, b.C = sb+sb-h4, sb+sb-w4
	}
	if w4 == 1 || h4 == 1 {
		switch c.All(4) {
		case 1:
			b.C ^= b2i(w4 == 1)
		case 2:
			b.R ^= b2i(h4 == 1)
		case 3:
			b.R ^= b2i(h4 == 1)
			b.C ^= b2i(w4 == 1)
		}
	}
}

// ends puts the end of the frame into the block.
func (b *Block) ends(c *mc.Ch, cost int) {
	end := func(at, n int) int {
		switch k := c.Pick(5, cost); k {
		case 1:
			return at + n
		case 2:
			return (at + n/2 + 1) &^ 1
		case 3:
			return (at + 2) &^ 1
		case 4:
			return (at + n - 1) &^ 1
		}
		return 64
	}
	b.Cols = least(64, end(b.C, wide[b.Size]/4))
	b.Rows = least(64, end(b.R, high[b.Size]/4))
}

func hash(a ...int) int {
	v := uint32(2166136261)
	for _, x := range a {
		v = (v ^ uint32(x+1)) * 16777619
		v ^= v >> 13
	}
	return int(v >> 3)
}

func (b *Block) surroundings(c *mc.Ch, cost int) {
	switch k := c.Pick(5, cost); k {
	case 1:
		b.Left, b.Above, b.LeftC, b.AboveC = false, false, false, false
	case 2:
		b.Left, b.AboveC = false, false
	case 3:
		b.LeftC, b.Above = false, false
	case 4:
		b.LeftC, b.AboveC = false, false
	}
	switch k := c.Pick(4, cost); k {
	case 1:
		b.Decoded = func(p, y, x int) bool { return false }
	case 2:
		b.Decoded = func(p, y, x int) bool { return true }
	case 3:
		b.Decoded = func(p, y, x int) bool { return hash(p, y, x)&1 == 1 }
	}
}

func (b *Block) skips(c *mc.Ch, cost int) {
	switch c.Pick(4, cost) {
	case 1:
		b.Skip = true
	case 2:
		b.Eob = func(n int) int { return 0 }
	case 3:
		b.Eob = func(n int) int { return 1024 * (n & 1) }
	}
}

// transforms of a block that is not inter: the largest, and below.
func transforms(sz int) []int {
	w, h := least(64, wide[sz]), least(64, high[sz])
	var out []int
	for d := 0; d < 3; d++ {
		out = append(out, size(w, h))
		switch {
		case w == h && w > 4:
			w, h = w/2, h/2
		case w > h:
			w /= 2
		case h > w:
			h /= 2
		default:
			return out
		}
	}
	return out
}

func main() {
	r := mc.Start()
	if m := os.Getenv("VERIF_SEAMS_MISSING"); m != "" {
		r.Assume("NOT EXPLORED: the code no longer has what the check replaces: " + m)
		r.Finish()
		return
	}
	stubs()
	n := 2 + b2i(r.Thorough())
	r.Explore(
		mc.Scenario{Name: "intra blocks", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := plain()
			b.Size = c.All(22)
			b.format(c.All(4))
			b.spot(c, 1)
			b.ends(c, 1)
			if c.Pick(2, 1) == 1 {
				b.Lossless = true
			} else {
				tx := transforms(b.Size)
				b.Tx = tx[c.All(len(tx))]
			}
			b.surroundings(c, 1)
			b.skips(c, 1)
			b.Depth = 8 + 2*c.Pick(3, 1)
			b.Mode = []int{0, 1, 8, 12}[c.Pick(4, 1)]
			b.UV = []int{0, 13, 2, 12}[c.Pick(4, 1)]
			if most(wide[b.Size], high[b.Size]) > 32 && b.UV == 13 {
				return nil
			}
			if wide[b.Size] >= 8 && high[b.Size] >= 8 && most(wide[b.Size], high[b.Size]) <= 64 {
				switch c.Pick(4, 1) {
				case 1:
					b.Pal = 8
				case 2:
					b.PalUV = 2
				case 3:
					b.Pal, b.PalUV = 3, 5
				}
			}
			return b.residual(c, w)
		}, Bound: n},
		mc.Scenario{Name: "inter blocks", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := plain()
			b.Inter = true
			b.Size = c.All(22)
			b.format(c.All(4))
			b.spot(c, 1)
			b.ends(c, 1)
			b.Lossless = c.Pick(2, 1) == 1
			b.Tx = transforms(b.Size)[0]
			b.skips(c, 1)
			b.surroundings(c, 1)
			b.UV = 13 * c.Pick(2, 1) // not what is there
			b.Pal = 2 * c.Pick(2, 1)
			k := c.All(19 + 4)
			b.Tree = func(r, cc int) int {
				if k < 19 {
					return k
				}
				return hash(k, r, cc) % 19
			}
			return b.residual(c, w)
		}, Bound: n},
		mc.Scenario{Name: "chroma from luma", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := plain()
			b.UV = 13
			sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 19}
			b.Size = sizes[c.All(len(sizes))]
			b.format(c.All(3))
			b.R, b.C = 16+b2i(high[b.Size] == 4), 16+b2i(wide[b.Size] == 4)
			b.ends(c, 0)
			tx := transforms(b.Size)
			b.Tx = tx[c.Pick(len(tx), 1)]
			b.Lossless = c.Pick(2, 1) == 1
			b.AlphaU = c.Pick(33, 1) - 16
			b.AlphaV = 16 - c.Pick(33, 1)
			b.Depth = 8 + 2*c.Pick(3, 1)
			b.skips(c, 1)
			return b.residual(c, w)
		}, Bound: n},
		mc.Scenario{Name: "prediction of inter blocks", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := plain()
			b.Size = c.All(22)
			b.Inter = c.Pick(2, 1) == 0
			b.Ref = []int{1, 7, 0}[c.Pick(3, 1)]
			b.format(c.All(4))
			b.spot(c, 1)
			around := c.All(10)
			b.Intra = func(r, cc int) bool {
				if around < 9 {
					return around > 0 && (r-b.R+2)*5+cc-b.C+2 == []int{0, 6, 7, 8, 11, 12, 13, 16, 17}[around]
				}
				return true
			}
			b.surroundings(c, 1)
			if b.Ref > 0 && wide[b.Size] >= 8 && high[b.Size] >= 8 && most(wide[b.Size], high[b.Size]) <= 32 {
				if k := c.All(5); k > 0 {
					b.InterIntra, b.II = true, k-1
				}
			}
			return b.prediction(c, w)
		}, Bound: n},
	)
	r.Bound("22 block sizes x 4 chroma formats x all transform sizes and 23 trees with at most %d departures in place within the superblock, limits of the frame (5 x 5), availability and what is decoded around (5 x 4), skip and coefficients, depth, modes and palettes; chroma from luma of 14 sizes x 25 limits with at most %d in weights, depth, transforms; inter prediction of 22 sizes x parities x intra neighbours", n, n)
	r.Assume("intra and inter prediction of a block, coefficients and the inverse transform are stood in for")
	r.Finish()
}
