//go:build !noshim

// Package mi is a model of what is decoded for a block besides its palette, motion vectors, transform sizes and
// coefficients, which are stood in for; and of what is kept of a block for those decoded later.
package mi

import (
	"fmt"
	"sync"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/sym"
)

// Width and height of the block sizes, in units of 4 samples.
var Wide = []int{1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16}
var High = []int{1, 2, 1, 2, 4, 2, 4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 4, 1, 8, 2, 16, 4}

// Modes, as gov1 numbers them.
const (
	DC = iota
	V
	H
	D45
	D135
	D113
	D157
	D203
	D67
	Smooth
	SmoothV
	SmoothH
	Paeth
	CfL
	Nearest
	Near
	Global
	New
	NearestNearest
	NearNear
	NearestNew
	NewNearest
	NearNew
	NewNear
	GlobalGlobal
	NewNew
)

const (
	average  = 2
	distance = 4
)

// Features of segments.
const (
	SegRef, SegSkip, SegGlobal = 5, 6, 7
)

// Cell is what is kept of a block.
type Cell struct {
	Size, YMode, UVMode   int
	Ref                   [2]int
	Filter                [2]int
	Mv                    [2][2]int
	Inter, Skip, SkipMode int
	Seg, Tx               int
	Pal                   [2]int
	Colors                [2][8]int
	Group, Index          int
	DeltaLF               [4]int
}

// Frame is what is set for a frame.
type Frame struct {
	Intra                                             bool
	Rows, Cols                                        int
	Tile                                              [4]int // rows, columns: start and end
	Mono                                              bool
	SubX, SubY                                        int
	SB128                                             bool
	Seg, UpdateMap, Temporal, PreSkip                 bool
	LastActive                                        int
	Feature                                           [8][8]bool
	SegRefFrame                                       [8]int
	Lossless                                          [8]bool
	CodedLossless                                     bool
	Cdef, IntraBC                                     bool
	CdefBits                                          int
	Deltas, DeltaLF, DeltaLFMulti                     bool
	DeltaQRes, DeltaLFRes                             int
	ScreenContent, FilterIntra                        bool
	SkipModePresent                                   bool
	SkipModeFrame                                     [2]int
	RefSelect                                         bool
	Interp                                            int
	Dual, Switchable, ForceInt, Warp, InterIntra, Msk bool
	Jnt                                               bool
	Gm                                                [8]int
	OrderHints                                        [8]int // 0: that of the frame
	OrderHintBits                                     int
	Scaled                                            [8]bool
	Prev                                              int      // segment of the frame before
	PrevAt                                            [][3]int // row, column, other segment
	NoAdapt                                           bool
}

// Plain is a frame with everything that can be coded present, nothing forced.
func Plain(intra bool) Frame {
	return Frame{Intra: intra, Rows: 64, Cols: 64, Tile: [4]int{0, 64, 0, 64}, SubX: 1, SubY: 1, LastActive: 7, UpdateMap: true,
		Cdef: true, CdefBits: 3, Deltas: false, FilterIntra: true, ScreenContent: true, SkipModePresent: true, SkipModeFrame: [2]int{2, 5},
		RefSelect: true, Interp: 4, Dual: true, Switchable: true, Warp: true, InterIntra: true, Msk: true, Jnt: true,
		OrderHints: [8]int{20, 16, 12, 18, 10, 24, 28, 26}, OrderHintBits: 7}
}

// Stand is what the stand-ins deliver.
type Stand struct {
	Found, NewCtx, RefCtx, ZeroCtx int
	Drl                            [8]int
	Samples                        int
	Pal                            [2]int
	Tx                             int
}

const N = 64

// W is a decoder together with the model.
type W struct {
	C                 *mc.Ch
	T                 *tilegroup.TileGroup
	S                 *state.State
	K                 *sym.Coder
	F                 Frame
	St                Stand
	Choose            func(name string, n int) int
	Grid              [N][N]Cell
	AboveSeg, LeftSeg [N]int
	CdefIdx           [N / 16][N / 16]int
	QIndex            int
	DeltaLF           [4]int
	ReadDeltas        bool
	marks             []string // the stand-ins that are to be called
	want              *expect
	fail              *mc.Fail
	dirty             [][4]int
	ready             bool
}

// expect is what is expected of a block.
type expect struct {
	r, c, size                     int
	cell                           Cell
	chroma                         bool
	lossless                       bool
	intrabc                        int
	angleY, angleUV                int
	alphaU, alphaV                 int
	filterIntra, filterMode        int
	motion, compound               int
	interIntra, iiMode, iiWedge    int
	wedge, sign, mask              int
	refIdx                         int
	up, left, upChroma, leftChroma bool
	predicted, done                int
}

var now sync.Map

// Get gives a worker's decoder.
func Get(c *mc.Ch) *W {
	w, ok := c.Local["w"].(*W)
	if !ok {
		w = &W{T: &tilegroup.TileGroup{}, S: &state.State{}}
		w.K = sym.New(w.S, "AngleDelta", "CflAlpha", "CflSign", "CompBwdRef", "CompGroupIdx", "CompMode", "CompRef",
			"CompRefType", "CompoundIdx", "CompoundMode", "CompoundType", "DeltaLF", "DeltaLFMulti", "DeltaQ", "DrlMode",
			"FilterIntra", "FilterIntraMode", "InterIntra", "InterIntraMode", "InterpFilter", "IntraFrameYMode", "Intrabc", "IsInter",
			"MotionMode", "NewMv", "RefMv", "SegmentId", "SegmentIdPredicted", "SingleRef", "Skip", "SkipMode",
			"UVModeCflAllowed", "UVModeCflNotAllowed", "UniCompRef", "UseObmc", "WedgeIndex", "WedgeInterIntra", "YMode", "ZeroMv")
		now.Store(w.T, w)
		c.Local["w"] = w
	}
	w.C = c
	return w
}

// Begin starts a tile of a frame with nothing decoded.
func (w *W) Begin(f Frame) {
	w.F = f
	w.St = Stand{Found: 0, Drl: [8]int{0, 1, 2, 0, 1, 2, 0, 1}}
	w.K.Trace = w.C.Tracing()
	w.K.Reset()
	w.K.Adapt = !f.NoAdapt
	w.fail, w.marks = nil, nil
	if !w.ready {
		w.dirty, w.ready = [][4]int{{0, 0, N, N}}, true
		w.arrays()
		w.clean()
	}
	w.clean()
	w.AboveSeg, w.LeftSeg = [N]int{}, [N]int{}
	for i := range w.CdefIdx {
		for j := range w.CdefIdx[i] {
			w.CdefIdx[i][j] = -1
		}
	}
	w.QIndex, w.DeltaLF, w.ReadDeltas = 100, [4]int{}, f.Deltas
}

var blank = Cell{Size: 3, YMode: DC, UVMode: DC, Ref: [2]int{0, -1}}

// clean restores what was touched.
func (w *W) clean() {
	for _, d := range w.dirty {
		for y := max(0, d[0]); y < min(N, d[0]+d[2]); y++ {
			for x := max(0, d[1]); x < min(N, d[1]+d[3]); x++ {
				w.Grid[y][x] = blank
				w.put(y, x)
			}
		}
	}
	w.dirty = w.dirty[:0]
}

// Put lays a block into the history.
func (w *W) Put(r, c, wide, high int, x Cell) {
	w.dirty = append(w.dirty, [4]int{r, c, high, wide})
	for y := r; y < r+high; y++ {
		for z := c; z < c+wide; z++ {
			if y >= 0 && z >= 0 && y < N && z < N {
				w.Grid[y][z] = x
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func clip(l, h, v int) int { return max(l, min(h, v)) }

func abs(a int) int { return max(a, -a) }

func (w *W) inside(r, c int) bool {
	t := w.F.Tile
	return r >= t[0] && r < t[1] && c >= t[2] && c < t[3]
}

func (w *W) feature(seg, f int) bool { return w.F.Seg && w.F.Feature[seg][f] }

var sizeGroup = []int{0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 0, 0, 1, 1, 2, 2}
var wedges = []int{0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0}

// code codes a chosen symbol.
func (w *W) code(name string, n int, idx ...int) int {
	v := w.Choose(name, n)
	w.K.Sym(name, v, idx...)
	return v
}

func (w *W) lit(name string, n int) int {
	v := w.Choose(name, 1<<uint(n))
	w.K.Lit(n, v)
	return v
}

// Block encodes a block and works out what is to become of it.
func (w *W) Block(r, c, size int) *expect {
	f := &w.F
	e := &expect{r: r, c: c, size: size}
	e.cell = Cell{Size: size}
	x := &e.cell
	bw, bh := Wide[size], High[size]
	e.chroma = !f.Mono && !(bh == 1 && f.SubY == 1 && r&1 == 0) && !(bw == 1 && f.SubX == 1 && c&1 == 0)
	e.up, e.left = w.inside(r-1, c), w.inside(r, c-1)
	if e.chroma {
		e.upChroma, e.leftChroma = e.up, e.left
		if f.SubY == 1 && bh == 1 {
			e.upChroma = w.inside(r-2, c)
		}
		if f.SubX == 1 && bw == 1 {
			e.leftChroma = w.inside(r, c-2)
		}
	}
	none := Cell{Size: -1, Ref: [2]int{0, -1}}
	above, left := none, none
	if e.up {
		above = w.Grid[r-1][c]
	}
	if e.left {
		left = w.Grid[r][c-1]
	}

	segment := func() {
		u, l, ul := -1, -1, -1
		if e.up {
			u = above.Seg
		}
		if e.left {
			l = left.Seg
		}
		if e.up && e.left {
			ul = w.Grid[r-1][c-1].Seg
		}
		pred := 0
		switch {
		case u < 0 && l < 0:
		case u < 0:
			pred = l
		case l < 0:
			pred = u
		case ul == u:
			pred = u
		default:
			pred = l
		}
		if x.Skip == 1 {
			x.Seg = pred
			return
		}
		ctx := 0
		if ul >= 0 {
			if ul == u && ul == l {
				ctx = 2
			} else if ul == u || ul == l || u == l {
				ctx = 1
			}
		}
		d := w.code("SegmentId", 8, ctx)
		x.Seg = clip(0, f.LastActive, deinterleave(d, pred, f.LastActive+1))
	}
	interSegment := func(pre bool) {
		if !f.Seg {
			x.Seg = 0
			return
		}
		pred := 7
		for i := r; i < min(r+bh, f.Rows); i++ {
			for j := c; j < min(c+bw, f.Cols); j++ {
				pred = min(pred, f.prev(i, j))
			}
		}
		if !f.UpdateMap {
			x.Seg = pred
			return
		}
		if pre && !f.PreSkip {
			x.Seg = 0
			return
		}
		remember := func(v int) {
			for i := 0; i < bw; i++ {
				w.AboveSeg[c+i] = v
			}
			for i := 0; i < bh; i++ {
				w.LeftSeg[r+i] = v
			}
		}
		if !pre && x.Skip == 1 {
			remember(0)
			segment()
			return
		}
		if f.Temporal {
			p := w.code("SegmentIdPredicted", 2, w.AboveSeg[c]+w.LeftSeg[r])
			if p == 1 {
				x.Seg = pred
			} else {
				segment()
			}
			remember(p)
		} else {
			segment()
		}
	}
	readSkip := func() {
		if f.PreSkip && w.feature(x.Seg, SegSkip) {
			x.Skip = 1
		} else {
			x.Skip = w.code("Skip", 2, above.Skip+left.Skip)
		}
	}
	if f.Intra {
		if f.PreSkip {
			if f.Seg {
				segment()
			}
		}
		readSkip()
		if !f.PreSkip && f.Seg {
			segment()
		}
	} else {
		interSegment(true)
		if !(w.feature(x.Seg, SegSkip) || w.feature(x.Seg, SegRef) || w.feature(x.Seg, SegGlobal) || !f.SkipModePresent || bw < 2 || bh < 2) {
			x.SkipMode = w.code("SkipMode", 2, above.SkipMode+left.SkipMode)
		}
		if x.SkipMode == 1 {
			x.Skip = 1
		} else {
			readSkip()
		}
		if !f.PreSkip {
			interSegment(false)
		}
	}
	e.lossless = f.Lossless[x.Seg]
	// cdef
	if x.Skip == 0 && !f.CodedLossless && f.Cdef && !f.IntraBC {
		y, z := r&^15, c&^15
		if w.CdefIdx[y/16][z/16] == -1 {
			v := w.lit("cdef", f.CdefBits)
			for i := y; i < y+bh; i += 16 {
				for j := z; j < z+bw; j += 16 {
					w.CdefIdx[i/16][j/16] = v
				}
			}
		}
	}
	// deltas
	sb := 12
	if f.SB128 {
		sb = 15
	}
	if !(size == sb && x.Skip == 1) && w.ReadDeltas {
		delta := func(name string, idx ...int) int {
			v := w.code(name, 4, idx...)
			if v == 3 {
				n := w.lit("bits", 3) + 1
				v = [...]int{0, 1<<uint(n) - 1, 1 << uint(n-1)}[w.Choose("value", 3)]
				w.K.Lit(n, v)
				v += 1<<uint(n) + 1
			}
			if v != 0 && w.lit("sign", 1) == 1 {
				v = -v
			}
			return v
		}
		if d := delta("DeltaQ"); d != 0 {
			w.QIndex = clip(1, 255, w.QIndex+d<<uint(f.DeltaQRes))
		}
		if f.DeltaLF {
			n := 1
			if f.DeltaLFMulti {
				n = 4
				if f.Mono {
					n = 2
				}
			}
			for i := 0; i < n; i++ {
				var d int
				if f.DeltaLFMulti {
					d = delta("DeltaLFMulti", i)
				} else {
					d = delta("DeltaLF")
				}
				w.DeltaLF[i] = clip(-63, 63, w.DeltaLF[i]+d<<uint(f.DeltaLFRes))
			}
		}
	}
	w.ReadDeltas = false
	x.DeltaLF = w.DeltaLF
	x.Ref = [2]int{0, -1}
	x.Tx = w.St.Tx

	aIntra, lIntra := above.Ref[0] <= 0, left.Ref[0] <= 0
	aSingle, lSingle := above.Ref[1] <= 0, left.Ref[1] <= 0
	if f.Intra {
		if f.IntraBC {
			e.intrabc = w.code("Intrabc", 2)
		}
		if e.intrabc == 1 {
			x.Inter = 1
			x.YMode, x.UVMode = DC, DC
			e.motion, e.compound = 0, average
			x.Filter = [2]int{3, 3}
			w.mark("assignMv")
			x.Mv = [2][2]int{{r*8 + 1, c*8 + 3}, {}}
		} else {
			a, l := 0, 0
			ctx := []int{0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0}
			if e.up {
				a = ctx[above.YMode]
			}
			if e.left {
				l = ctx[left.YMode]
			}
			x.YMode = w.code("IntraFrameYMode", 13, a, l)
			w.intra(e)
		}
	} else {
		switch {
		case x.SkipMode == 1:
			x.Inter = 1
		case w.feature(x.Seg, SegRef):
			x.Inter = b2i(f.SegRefFrame[x.Seg] != 0)
		case w.feature(x.Seg, SegGlobal):
			x.Inter = 1
		default:
			ctx := 0
			if e.up && e.left {
				ctx = b2i(aIntra || lIntra)
				if aIntra && lIntra {
					ctx = 3
				}
			} else if e.up {
				ctx = 2 * b2i(aIntra)
			} else if e.left {
				ctx = 2 * b2i(lIntra)
			}
			x.Inter = w.code("IsInter", 2, ctx)
		}
		if x.Inter == 0 {
			x.YMode = w.code("YMode", 13, sizeGroup[size])
			w.intra(e)
		} else {
			w.refs(e, &above, &left, aIntra, lIntra, aSingle, lSingle)
			w.inter(e, &above, &left, aSingle, lSingle)
		}
	}
	w.mark("paletteTokens")
	w.mark("readBlockTxSize")
	w.mark("residual")
	for i := r; i < r+bh; i++ {
		for j := c; j < c+bw; j++ {
			old := w.Grid[i][j]
			w.Grid[i][j] = *x
			g := &w.Grid[i][j]
			if !(x.Ref[0] == 0 && e.chroma) {
				g.UVMode = old.UVMode
			}
			if x.Inter == 0 {
				g.Mv, g.Filter = old.Mv, old.Filter
				g.Group, g.Index = old.Group, old.Index
			} else if x.Ref[1] <= 0 {
				g.Mv[1] = old.Mv[1]
			}
		}
	}
	return e
}

// intra codes the modes of an intra block, from the angle of the luma on.
func (w *W) intra(e *expect) {
	f, x := &w.F, &e.cell
	bw, bh := Wide[e.size], High[e.size]
	directional := func(m int) bool { return m >= V && m <= D67 }
	if e.size >= 3 && directional(x.YMode) {
		e.angleY = w.code("AngleDelta", 7, x.YMode-V) - 3
	}
	if e.chroma {
		cfl := max(bw, bh) <= 8
		if e.lossless {
			cfl = max(1, bw>>uint(f.SubX)) == 1 && max(1, bh>>uint(f.SubY)) == 1
		}
		if cfl {
			x.UVMode = w.code("UVModeCflAllowed", 14, x.YMode)
		} else {
			x.UVMode = w.code("UVModeCflNotAllowed", 13, x.YMode)
		}
		if x.UVMode == CfL {
			s := w.code("CflSign", 8) + 1
			su, sv := s/3, s%3
			alpha := func(sign, other int) int {
				if sign == 0 {
					return 0
				}
				a := 1 + w.code("CflAlpha", 16, (sign-1)*3+other)
				if sign == 1 {
					return -a
				}
				return a
			}
			e.alphaU = alpha(su, sv)
			e.alphaV = alpha(sv, su)
		}
		if e.size >= 3 && directional(x.UVMode) {
			e.angleUV = w.code("AngleDelta", 7, x.UVMode-V) - 3
		}
	}
	if e.size >= 3 && bw <= 16 && bh <= 16 && f.ScreenContent {
		w.mark("paletteModeInfo")
		x.Pal = w.St.Pal
		for p := range x.Pal {
			for i := 0; i < x.Pal[p]; i++ {
				x.Colors[p][i] = 10*p + i + 1
			}
		}
	}
	if f.FilterIntra && x.YMode == DC && x.Pal[0] == 0 && max(bw, bh) <= 8 {
		e.filterIntra = w.code("FilterIntra", 2, e.size)
		if e.filterIntra == 1 {
			e.filterMode = w.code("FilterIntraMode", 5)
		}
	}
}

// refs codes the reference frames.
func (w *W) refs(e *expect, above, left *Cell, aIntra, lIntra, aSingle, lSingle bool) {
	f, x := &w.F, &e.cell
	switch {
	case x.SkipMode == 1:
		x.Ref = f.SkipModeFrame
		return
	case w.feature(x.Seg, SegRef):
		x.Ref = [2]int{f.SegRefFrame[x.Seg], -1}
		return
	case w.feature(x.Seg, SegSkip) || w.feature(x.Seg, SegGlobal):
		x.Ref = [2]int{1, -1}
		return
	}
	count := func(refs ...int) int {
		n := 0
		for _, r := range refs {
			if e.up {
				n += b2i(above.Ref[0] == r) + b2i(above.Ref[1] == r)
			}
			if e.left {
				n += b2i(left.Ref[0] == r) + b2i(left.Ref[1] == r)
			}
		}
		return n
	}
	than := func(a, b int) int {
		if a < b {
			return 0
		}
		return 1 + b2i(a > b)
	}
	const (
		last, last2, last3, gold, bwd, alt2, alt = 1, 2, 3, 4, 5, 6, 7
	)
	forward := than(count(last, last2, last3, gold), count(bwd, alt2, alt))
	l12 := than(count(last, last2), count(last3, gold))
	l1 := than(count(last), count(last2))
	l3 := than(count(last3), count(gold))
	b12 := than(count(bwd, alt2), count(alt))
	b1 := than(count(bwd), count(alt2))
	compound := 0
	back := func(r int) bool { return r >= bwd }
	if f.RefSelect && min(Wide[e.size], High[e.size]) >= 2 {
		ctx := 1
		switch {
		case e.up && e.left:
			switch {
			case aSingle && lSingle:
				ctx = b2i(back(above.Ref[0]) != back(left.Ref[0]))
			case aSingle:
				ctx = 2 + b2i(back(above.Ref[0]) || aIntra)
			case lSingle:
				ctx = 2 + b2i(back(left.Ref[0]) || lIntra)
			default:
				ctx = 4
			}
		case e.up:
			ctx = 3
			if aSingle {
				ctx = b2i(back(above.Ref[0]))
			}
		case e.left:
			ctx = 3
			if lSingle {
				ctx = b2i(back(left.Ref[0]))
			}
		}
		compound = w.code("CompMode", 2, ctx)
	}
	if compound == 0 {
		x.Ref[1] = -1
		if w.code("SingleRef", 2, forward, 0) == 1 {
			if w.code("SingleRef", 2, b12, 1) == 1 {
				x.Ref[0] = alt
			} else {
				x.Ref[0] = bwd + w.code("SingleRef", 2, b1, 5)
			}
		} else if w.code("SingleRef", 2, l12, 2) == 1 {
			x.Ref[0] = last3 + w.code("SingleRef", 2, l3, 4)
		} else {
			x.Ref[0] = last + w.code("SingleRef", 2, l1, 3)
		}
		return
	}
	aComp, lComp := e.up && !aIntra && !aSingle, e.left && !lIntra && !lSingle
	aUni, lUni := aComp && back(above.Ref[0]) == back(above.Ref[1]), lComp && back(left.Ref[0]) == back(left.Ref[1])
	ctx := 2
	switch {
	case e.up && !aIntra && e.left && !lIntra:
		same := b2i(back(above.Ref[0]) == back(left.Ref[0]))
		switch {
		case !aComp && !lComp:
			ctx = 1 + 2*same
		case !aComp || !lComp:
			ctx = 1
			if aUni || lUni {
				ctx = 3 + same
			}
		case !aUni && !lUni:
			ctx = 0
		case !aUni || !lUni:
			ctx = 2
		default:
			ctx = 3 + b2i((above.Ref[0] == bwd) == (left.Ref[0] == bwd))
		}
	case e.up && e.left:
		if aComp {
			ctx = 1 + 2*b2i(aUni)
		} else if lComp {
			ctx = 1 + 2*b2i(lUni)
		}
	case aComp:
		ctx = 4 * b2i(aUni)
	case lComp:
		ctx = 4 * b2i(lUni)
	}
	if w.code("CompRefType", 2, ctx) == 0 {
		x.Ref = [2]int{bwd, alt}
		if w.code("UniCompRef", 2, forward, 0) == 0 {
			x.Ref = [2]int{last, last2}
			if w.code("UniCompRef", 2, than(count(last2), count(last3, gold)), 1) == 1 {
				x.Ref[1] = last3 + w.code("UniCompRef", 2, l3, 2)
			}
		}
		return
	}
	if w.code("CompRef", 2, l12, 0) == 0 {
		x.Ref[0] = last + w.code("CompRef", 2, l1, 1)
	} else {
		x.Ref[0] = last3 + w.code("CompRef", 2, l3, 2)
	}
	x.Ref[1] = alt
	if w.code("CompBwdRef", 2, b12, 0) == 0 {
		x.Ref[1] = bwd + w.code("CompBwdRef", 2, b1, 1)
	}
}

var compoundCtx = [3][5]int{{0, 1, 1, 1, 1}, {1, 2, 3, 4, 4}, {4, 4, 5, 6, 7}}

// inter codes what follows the reference frames.
func (w *W) inter(e *expect, above, left *Cell, aSingle, lSingle bool) {
	f, x, st := &w.F, &e.cell, &w.St
	bw, bh := Wide[e.size], High[e.size]
	comp := x.Ref[1] > 0
	switch {
	case x.SkipMode == 1:
		x.YMode = NearestNearest
	case w.feature(x.Seg, SegSkip) || w.feature(x.Seg, SegGlobal):
		x.YMode = Global
	case comp:
		x.YMode = NearestNearest + w.code("CompoundMode", 8, compoundCtx[st.RefCtx>>1][min(st.NewCtx, 4)])
	case w.code("NewMv", 2, st.NewCtx) == 0:
		x.YMode = New
	case w.code("ZeroMv", 2, st.ZeroCtx) == 0:
		x.YMode = Global
	default:
		x.YMode = Nearest + w.code("RefMv", 2, st.RefCtx)
	}
	first := -1
	switch x.YMode {
	case New, NewNew:
		first = 0
	case Near, NearNear, NearNew, NewNear:
		first = 1
	}
	if first >= 0 {
		e.refIdx = first
		for i := first; i < first+2 && st.Found > i+1; i++ {
			if w.code("DrlMode", 2, st.Drl[i]) == 0 {
				break
			}
			e.refIdx = i + 1
		}
	}
	w.mark("assignMv")
	x.Mv[0] = [2]int{e.r*8 + 1, e.c*8 + 3}
	if comp {
		x.Mv[1] = [2]int{e.r*16 - 5, e.c*16 - 7}
	}
	if x.SkipMode == 0 && f.InterIntra && !comp && e.size >= 3 && e.size <= 9 {
		g := sizeGroup[e.size] - 1
		e.interIntra = w.code("InterIntra", 2, g)
		if e.interIntra == 1 {
			e.iiMode = w.code("InterIntraMode", 4, g)
			x.Ref[1] = 0
			e.iiWedge = w.code("WedgeInterIntra", 2, e.size)
			if e.iiWedge == 1 {
				e.wedge = w.code("WedgeIndex", 16, e.size)
			}
		}
	}
	e.motion = w.motion(e, comp)
	x.Index = 1
	e.compound = average
	if x.SkipMode == 0 {
		if comp {
			if f.Msk {
				ctx := 0
				if e.up {
					if !aSingle {
						ctx += above.Group
					} else if above.Ref[0] == 7 {
						ctx += 3
					}
				}
				if e.left {
					if !lSingle {
						ctx += left.Group
					} else if left.Ref[0] == 7 {
						ctx += 3
					}
				}
				x.Group = w.code("CompGroupIdx", 2, min(5, ctx))
			}
			if x.Group == 0 {
				if f.Jnt {
					ctx := 0
					if w.distance(x.Ref[0]) == w.distance(x.Ref[1]) {
						ctx = 3
					}
					if e.up {
						if !aSingle {
							ctx += above.Index
						} else if above.Ref[0] == 7 {
							ctx++
						}
					}
					if e.left {
						if !lSingle {
							ctx += left.Index
						} else if left.Ref[0] == 7 {
							ctx++
						}
					}
					x.Index = w.code("CompoundIdx", 2, ctx)
					if x.Index == 0 {
						e.compound = distance
					}
				}
			} else {
				e.compound = 1
				if wedges[e.size] == 1 {
					e.compound = w.code("CompoundType", 2, e.size)
				}
				if e.compound == 0 {
					e.wedge = w.code("WedgeIndex", 16, e.size)
					e.sign = w.lit("wedge sign", 1)
				} else {
					e.mask = w.lit("mask type", 1)
				}
			}
		} else if e.interIntra == 1 {
			e.compound = 3
			if e.iiWedge == 1 {
				e.compound = 0
			}
		}
	}
	if f.Interp != 4 {
		x.Filter = [2]int{f.Interp, f.Interp}
		return
	}
	needs := true
	if x.SkipMode == 1 || e.motion == 2 {
		needs = false
	} else if min(bw, bh) >= 2 && x.YMode == Global {
		needs = f.Gm[x.Ref[0]] == 1
	} else if min(bw, bh) >= 2 && x.YMode == GlobalGlobal {
		needs = f.Gm[x.Ref[0]] == 1 || f.Gm[x.Ref[1]] == 1
	}
	for dir := 0; dir < 1+b2i(f.Dual); dir++ {
		x.Filter[dir] = 0
		if needs {
			a, l := 3, 3
			if e.up && (above.Ref[0] == x.Ref[0] || above.Ref[1] == x.Ref[0]) {
				a = above.Filter[dir]
			}
			if e.left && (left.Ref[0] == x.Ref[0] || left.Ref[1] == x.Ref[0]) {
				l = left.Filter[dir]
			}
			ctx := (dir*2 + b2i(comp)) * 4
			switch {
			case a == l:
				ctx += a
			case l == 3:
				ctx += a
			case a == 3:
				ctx += l
			default:
				ctx += 3
			}
			x.Filter[dir] = w.code("InterpFilter", 3, ctx)
		}
	}
	if !f.Dual {
		x.Filter[1] = x.Filter[0]
	}
}

// distance is how far a reference is from the frame.
func (w *W) distance(ref int) int {
	if w.F.OrderHintBits == 0 {
		return 0
	}
	m := 1 << uint(w.F.OrderHintBits)
	d := ((w.F.OrderHints[ref]-w.F.OrderHints[0])%m + m) % m
	return min(d, m-d)
}

func (w *W) motion(e *expect, comp bool) int {
	f, x := &w.F, &e.cell
	bw, bh := Wide[e.size], High[e.size]
	if x.SkipMode == 1 || !f.Switchable || min(bw, bh) < 2 {
		return 0
	}
	if !f.ForceInt && (x.YMode == Global || x.YMode == GlobalGlobal) && f.Gm[x.Ref[0]] > 1 {
		return 0
	}
	if comp || x.Ref[1] == 0 {
		return 0
	}
	candidates := false
	if e.up {
		for i := e.c; i < min(f.Cols, e.c+bw); i += 2 {
			if w.Grid[e.r-1][min(i|1, f.Cols-1)].Ref[0] > 0 {
				candidates = true
			}
		}
	}
	if e.left {
		for i := e.r; i < min(f.Rows, e.r+bh); i += 2 {
			if w.Grid[min(i|1, f.Rows-1)][e.c-1].Ref[0] > 0 {
				candidates = true
			}
		}
	}
	if !candidates {
		return 0
	}
	if f.ForceInt || w.St.Samples == 0 || !f.Warp || f.Scaled[x.Ref[0]] {
		return w.code("UseObmc", 2, e.size)
	}
	return w.code("MotionMode", 3, e.size)
}

func deinterleave(diff, ref, max int) int {
	if ref == 0 {
		return diff
	}
	if ref >= max-1 {
		return max - diff - 1
	}
	near := min(2*ref, 2*(max-ref-1))
	if diff <= near {
		if diff&1 == 1 {
			return ref + (diff+1)/2
		}
		return ref - diff/2
	}
	if 2*ref < max {
		return diff
	}
	return max - (diff + 1)
}

// mark codes the mark of a stand-in, by which it can tell whether it is called at the right place.
func (w *W) mark(name string) {
	w.K.Lit(3, 5)
	w.marks = append(w.marks, name)
	if w.K.Trace {
		w.K.Log = append(w.K.Log, name)
	}
}

// arrays makes room for what has no fixed size.
func (w *W) arrays() {
	t, s := w.T, w.S
	t.AboveSegPredContext, t.LeftSegPredContext = make([]int, N), make([]int, N)
	t.AboveLevelContext, t.AboveDcContext, t.LeftLevelContext = make([][]int, 3), make([][]int, 3), make([][]int, 3)
	s.PrevSegmentIds, s.Cdef.CdefIdx = make([][]int, N), make([][]int, N)
	for i := range s.PrevSegmentIds {
		s.PrevSegmentIds[i], s.Cdef.CdefIdx[i] = make([]int, N), make([]int, N)
		for j := range s.Cdef.CdefIdx[i] {
			s.Cdef.CdefIdx[i][j] = 99
		}
	}
	for p := 0; p < 3; p++ {
		t.AboveLevelContext[p], t.AboveDcContext[p] = make([]int, N), make([]int, N)
		t.LeftLevelContext[p], t.LeftDcContext[p] = make([]int, N), make([]int, N)
	}
}

func (f *Frame) prev(y, x int) int {
	for _, p := range f.PrevAt {
		if p[0] == y && p[1] == x {
			return p[2]
		}
	}
	return f.Prev
}

// put lays one 4x4 block into the decoder.
func (w *W) put(i, j int) {
	t, s := w.T, w.S
	g := &w.Grid[i][j]
	t.YModes[i][j], t.UVModes[i][j] = g.YMode, g.UVMode
	s.RefFrames[i][j] = g.Ref
	t.InterpFilters[i][j] = g.Filter
	t.Mvs[i][j] = g.Mv
	t.IsInters[i][j], t.Skips[i][j], t.SkipModes[i][j], t.TxSizes[i][j] = g.Inter, g.Skip, g.SkipMode, g.Tx
	s.MiSizes[i][j], t.SegmentIds[i][j] = g.Size, g.Seg
	t.PaletteSizes[0][i][j], t.PaletteSizes[1][i][j] = g.Pal[0], g.Pal[1]
	t.CompGroupIdxs[i][j], t.CompoundIdxs[i][j] = g.Group, g.Index
	for k := 0; k < 4; k++ {
		s.DeltaLFs[i][j][k] = g.DeltaLF[k]
	}
	for p := 0; p < 2; p++ {
		for k := 0; k < 8; k++ {
			t.PaletteColors[p][i][j][k] = g.Colors[p][k]
		}
	}
}

// load lays the model's state into the decoder.
func (w *W) load(spots []Spot) {
	t, s, f := w.T, w.S, &w.F
	s.MiRows, s.MiCols = f.Rows, f.Cols
	s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd = f.Tile[0], f.Tile[1], f.Tile[2], f.Tile[3]
	for i := 0; i < N; i++ {
		t.AboveSegPredContext[i], t.LeftSegPredContext[i] = w.AboveSeg[i], w.LeftSeg[i]
		for p := 0; p < 3; p++ {
			t.AboveLevelContext[p][i], t.AboveDcContext[p][i], t.LeftLevelContext[p][i], t.LeftDcContext[p][i] = 7, 2, 9, 1
		}
	}
	for i := range w.CdefIdx {
		for j := range w.CdefIdx[i] {
			s.Cdef.CdefIdx[16*i][16*j] = w.CdefIdx[i][j]
		}
	}
	for _, p := range spots {
		d := [4]int{p.R - 2, p.C - 2, High[p.Size] + 4, Wide[p.Size] + 4}
		w.dirty = append(w.dirty, d)
		for y := max(0, d[0]); y < min(N, d[0]+d[2]); y++ {
			for x := max(0, d[1]); x < min(N, d[1]+d[3]); x++ {
				w.put(y, x)
				s.PrevSegmentIds[y][x] = f.prev(y, x)
			}
		}
	}
	s.CurrentQIndex, s.DeltaLF, s.ReadDeltas = w.QIndex, w.DeltaLF, w.ReadDeltas
	s.GmType = f.Gm
	for seg := range f.Feature {
		for i := range f.Feature[seg] {
			s.FeatureEnabled[seg][i] = b2i(f.Feature[seg][i])
			s.FeatureData[seg][i] = 0
		}
		s.FeatureData[seg][SegRef] = f.SegRefFrame[seg]
	}
	for i := 0; i < 7; i++ {
		s.RefUpscaledWidth[i], s.RefFrameHeight[i] = 4*f.Cols, 4*f.Rows
		if f.Scaled[i+1] {
			if i&1 == 0 {
				s.RefUpscaledWidth[i] *= 2
			} else {
				s.RefFrameHeight[i] /= 2
			}
		}
	}
	s.Cdef.CdefBits = 99
}

// spoil leaves the block's own variables as another block might have.
func (w *W) spoil(v int) {
	t, s := w.T, w.S
	t.SegmentId, t.Skip, t.SkipMode, t.IsInter = v, v&1, v&1, v&1
	t.Lossless = v&1 == 1
	t.YMode, t.UVMode, t.AngleDeltaY, t.AngleDeltaUV, t.CflAlphaU, t.CflAlphaV = 16, 5, 2, -2, 7, 8
	t.UseFilterIntra, t.FilterIntraMode = v&1 == 1, 3
	t.PaletteSizeY, t.PaletteSizeUV = 3, 2
	t.InterpFilter = [2]int{2, 1}
	t.MotionMode, t.CompoundType, t.InterIntra, t.InterIntraMode, t.WedgeInterIntra = 2, 1, v&1, 2, v&1
	t.WedgeIndex, t.WedgeSign, t.MaskType, t.RefMvIdx = 6, 1, 1, 3
	t.CompGroupIdx, t.CompoundIdx = 1, 0
	t.LeftRefFrame, t.AboveRefFrame = [2]int{7, 7}, [2]int{7, 7}
	t.LeftIntra, t.AboveIntra, t.LeftSingle, t.AboveSingle = true, true, false, false
	t.NumMvFound, t.NewMvContext, t.RefMvContext, t.ZeroMvContext, t.NumSamples = 0, 0, 0, 0, 1-min(w.St.Samples, 1)
	t.TxSize = 3
	s.RefFrame = [2]int{5, 7}
	s.Skip, s.IsInter = 1-v&1, 1-v&1
	tilegroup.VerifSetUseIntrabc(t, v&1)
}

func (f *Frame) headers() (sequenceheader.SequenceHeader, uncompressedheader.UncompressedHeader) {
	sh := sequenceheader.SequenceHeader{Use128x128SuperBlock: f.SB128, EnableFilterIntra: f.FilterIntra, EnableInterIntraCompound: f.InterIntra,
		EnableMaskedCompound: f.Msk, EnableJntComp: f.Jnt, EnableDualFilter: f.Dual, EnableCdef: f.Cdef,
		EnableOrderHint: f.OrderHintBits > 0, OrderHintBits: f.OrderHintBits, EnableWarpedMotion: f.Warp}
	sh.ColorConfig.MonoChrome = f.Mono
	sh.ColorConfig.NumPlanes = 3
	if f.Mono {
		sh.ColorConfig.NumPlanes = 1
	}
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = f.SubX == 1, f.SubY == 1
	uh := uncompressedheader.UncompressedHeader{FrameIsIntra: f.Intra, AllowIntraBc: f.IntraBC, IsMotionModeSwitchable: f.Switchable,
		AllowWarpedMotion: f.Warp, ReferenceSelect: f.RefSelect, CodedLossless: f.CodedLossless, DeltaQPresent: f.Deltas, DeltaQRes: f.DeltaQRes,
		DeltaLfPresent: f.DeltaLF, DeltaLfRes: f.DeltaLFRes, DeltaLfMulti: b2i(f.DeltaLFMulti), FrameWidth: 4 * f.Cols, FrameHeight: 4 * f.Rows,
		UpscaledWidth: 4 * f.Cols, InterpolationFilter: f.Interp, SegIdPreSkip: b2i(f.PreSkip), LastActiveSegId: f.LastActive,
		SegmentationEnabled: f.Seg, SegmentationTemporalUpdate: b2i(f.Temporal), SegmentationUpdateMap: b2i(f.UpdateMap),
		LosslessArray: f.Lossless, ForceIntegerMv: f.ForceInt, AllowScreenContentTools: b2i(f.ScreenContent), SkipModePresent: b2i(f.SkipModePresent),
		SkipModeFrame: []int{f.SkipModeFrame[0], f.SkipModeFrame[1]}, DisableCdfUpdate: f.NoAdapt, CdefBits: f.CdefBits,
		EnableOrderHint: f.OrderHintBits > 0, OrderHintBits: f.OrderHintBits, OrderHint: f.OrderHints[0], BaseQIdx: 100}
	for i := range uh.RefFrameIdx {
		uh.RefFrameIdx[i] = i
		uh.OrderHints[i+1] = f.OrderHints[i+1]
	}
	return sh, uh
}

// Spot is a block's place.
type Spot struct{ R, C, Size int }

// Decode codes blocks, decodes them and compares.
func (w *W) Decode(spots ...Spot) *mc.Fail {
	w.load(spots)
	var es []*expect
	var grids [][]Cell
	type side struct {
		above, left [N]int
		cdef        [N / 16][N / 16]int
		q           int
		lf          [4]int
	}
	var sides []side
	for _, p := range spots {
		e := w.Block(p.R, p.C, p.Size)
		es = append(es, e)
		sides = append(sides, side{w.AboveSeg, w.LeftSeg, w.CdefIdx, w.QIndex, w.DeltaLF})
		var g []Cell
		for y := max(0, p.R-2); y < min(N, p.R+High[p.Size]+2); y++ {
			for x := max(0, p.C-2); x < min(N, p.C+Wide[p.Size]+2); x++ {
				g = append(g, w.Grid[y][x])
			}
		}
		grids = append(grids, g)
	}
	desc := func() string {
		return fmt.Sprintf("blocks (row, column, size) %v of frame %+v", spots, w.F)
	}
	if w.C.Tracing() {
		w.C.Note("%s; %v", desc(), w.K.Log)
	}
	br := w.K.Start()
	sh, uh := w.F.headers()
	w.C.Inner++
	for i, p := range spots {
		e := es[i]
		w.want = e
		w.spoil(i + 1 + p.R&1)
		w.C.Steps++
		err := mc.Catch(func() { tilegroup.VerifDecodeBlock(w.T, p.R, p.C, p.Size, br, w.S, sh, uh) })
		f := w.fail
		if err != nil && f == nil {
			if mc.Diverged(err) {
				panic(err)
			}
			f = mc.Failf("panic", "%v", err)
		}
		if f == nil && e.done == 0 {
			f = mc.Failf("order", "the coefficients were not decoded")
		}
		if f == nil {
			f = w.compare(e, p, grids[i])
		}
		if f == nil {
			s := &sides[i]
			for j := 0; j < N && f == nil; j++ {
				if w.T.AboveSegPredContext[j] != s.above[j] {
					f = mc.Failf("predicted segments", "context of predicted segments above %d is %d, want %d", j, w.T.AboveSegPredContext[j], s.above[j])
				}
				if w.T.LeftSegPredContext[j] != s.left[j] {
					f = mc.Failf("predicted segments", "context of predicted segments left of %d is %d, want %d", j, w.T.LeftSegPredContext[j], s.left[j])
				}
			}
			for y := 0; y < N; y += 16 {
				for x := 0; x < N; x += 16 {
					if g := w.S.Cdef.CdefIdx[y][x]; f == nil && g != s.cdef[y/16][x/16] {
						f = mc.Failf("cdef", "CDEF index at %d,%d is %d, want %d", y, x, g, s.cdef[y/16][x/16])
					}
				}
			}
			if f == nil && w.S.CurrentQIndex != s.q {
				f = mc.Failf("qindex", "quantizer index is %d, want %d", w.S.CurrentQIndex, s.q)
			}
			if f == nil && w.S.DeltaLF != s.lf {
				f = mc.Failf("delta lf", "loop filter deltas are %v, want %v", w.S.DeltaLF, s.lf)
			}
			if f == nil && w.S.ReadDeltas {
				f = mc.Failf("deltas", "deltas are to be read again")
			}
		}
		if f != nil {
			f.Desc = fmt.Sprintf("block %d: %s; %s", i, f.Desc, desc())
			return f
		}
	}
	if f := w.K.Check(br); f != nil {
		f.Desc += "; " + desc()
		return f
	}
	return nil
}

// info compares what is known once the block's modes are decoded.
func (w *W) info(e *expect) *mc.Fail {
	t, s, x := w.T, w.S, &e.cell
	type pair struct {
		name      string
		got, want int
	}
	l := []pair{{"segment", t.SegmentId, x.Seg}, {"skip", t.Skip, x.Skip}, {"skip mode", t.SkipMode, x.SkipMode}, {"lossless", b2i(t.Lossless), b2i(e.lossless)},
		{"is inter", t.IsInter, x.Inter}, {"block copy", tilegroup.VerifGetUseIntrabc(t), e.intrabc}, {"mode", t.YMode, x.YMode},
		{"reference", s.RefFrame[0], x.Ref[0]}, {"second reference", s.RefFrame[1], x.Ref[1]},
		{"palette size", t.PaletteSizeY, x.Pal[0]}, {"chroma palette size", t.PaletteSizeUV, x.Pal[1]}, {"has chroma", b2i(t.HasChroma), b2i(e.chroma)},
		{"row", s.MiRow, e.r}, {"column", s.MiCol, e.c}, {"size", s.MiSize, e.size}, {"available above", b2i(s.AvailU), b2i(e.up)}, {"available left", b2i(s.AvailL), b2i(e.left)},
		{"chroma available above", b2i(s.AvailUChroma), b2i(e.upChroma)}, {"chroma available left", b2i(s.AvailLChroma), b2i(e.leftChroma)}}
	if x.Inter == 0 || e.interIntra == 1 {
		l = append(l, pair{"angle", t.AngleDeltaY, e.angleY}, pair{"filter intra", b2i(t.UseFilterIntra), e.filterIntra})
		if e.filterIntra == 1 {
			l = append(l, pair{"filter intra mode", t.FilterIntraMode, e.filterMode})
		}
		if e.chroma {
			l = append(l, pair{"chroma angle", t.AngleDeltaUV, e.angleUV})
		}
	}
	if x.Inter == 0 && e.chroma {
		l = append(l, pair{"chroma mode", t.UVMode, x.UVMode})
		if x.UVMode == CfL {
			l = append(l, pair{"alpha of U", t.CflAlphaU, e.alphaU}, pair{"alpha of V", t.CflAlphaV, e.alphaV})
		}
	}
	if x.Inter == 1 {
		l = append(l, pair{"filter", t.InterpFilter[0], x.Filter[0]}, pair{"second filter", t.InterpFilter[1], x.Filter[1]},
			pair{"motion mode", t.MotionMode, e.motion}, pair{"compound type", t.CompoundType, e.compound})
		if e.intrabc == 0 {
			l = append(l, pair{"interintra", t.InterIntra, e.interIntra})
		} else if e.chroma {
			l = append(l, pair{"chroma mode", t.UVMode, x.UVMode})
		}
		if e.interIntra == 1 {
			l = append(l, pair{"interintra mode", t.InterIntraMode, e.iiMode}, pair{"interintra wedge", t.WedgeInterIntra, e.iiWedge})
		}
		if e.compound == 0 {
			l = append(l, pair{"wedge", t.WedgeIndex, e.wedge}, pair{"wedge sign", t.WedgeSign, e.sign})
		}
		if e.compound == 1 {
			l = append(l, pair{"mask type", t.MaskType, e.mask})
		}
		if x.Ref[1] > 0 {
			l = append(l, pair{"compound group", t.CompGroupIdx, x.Group}, pair{"compound index", t.CompoundIdx, x.Index})
		}
	}
	for _, p := range l {
		if p.got != p.want {
			return mc.Failf(p.name, "%s is %d, want %d", p.name, p.got, p.want)
		}
	}
	return nil
}

// compare compares what is kept.
func (w *W) compare(e *expect, p Spot, grid []Cell) *mc.Fail {
	t, s := w.T, w.S
	i := 0
	for y := max(0, p.R-2); y < min(N, p.R+High[p.Size]+2); y++ {
		for x := max(0, p.C-2); x < min(N, p.C+Wide[p.Size]+2); x++ {
			g := &grid[i]
			i++
			bad := func(what string, got, want interface{}) *mc.Fail {
				return mc.Failf("kept "+what, "what is kept of the %s at %d,%d is %v, want %v", what, y, x, got, want)
			}
			switch {
			case t.YModes[y][x] != g.YMode:
				return bad("mode", t.YModes[y][x], g.YMode)
			case s.RefFrames[y][x] != g.Ref:
				return bad("references", s.RefFrames[y][x], g.Ref)
			case t.UVModes[y][x] != g.UVMode:
				return bad("chroma mode", t.UVModes[y][x], g.UVMode)
			case t.IsInters[y][x] != g.Inter:
				return bad("inter", t.IsInters[y][x], g.Inter)
			case t.Skips[y][x] != g.Skip:
				return bad("skip", t.Skips[y][x], g.Skip)
			case t.SkipModes[y][x] != g.SkipMode:
				return bad("skip mode", t.SkipModes[y][x], g.SkipMode)
			case t.TxSizes[y][x] != g.Tx:
				return bad("transform size", t.TxSizes[y][x], g.Tx)
			case s.MiSizes[y][x] != g.Size:
				return bad("size", s.MiSizes[y][x], g.Size)
			case t.SegmentIds[y][x] != g.Seg:
				return bad("segment", t.SegmentIds[y][x], g.Seg)
			case t.PaletteSizes[0][y][x] != g.Pal[0] || t.PaletteSizes[1][y][x] != g.Pal[1]:
				return bad("palette sizes", []int{t.PaletteSizes[0][y][x], t.PaletteSizes[1][y][x]}, g.Pal)
			}
			if g.Inter == 1 {
				if t.InterpFilters[y][x] != g.Filter {
					return bad("filters", t.InterpFilters[y][x], g.Filter)
				}
				if t.Mvs[y][x][0] != g.Mv[0] || g.Ref[1] > 0 && t.Mvs[y][x][1] != g.Mv[1] {
					return bad("vectors", t.Mvs[y][x], g.Mv)
				}
			}
			if g.Ref[1] > 0 {
				if t.CompGroupIdxs[y][x] != g.Group {
					return bad("compound group", t.CompGroupIdxs[y][x], g.Group)
				}
				if t.CompoundIdxs[y][x] != g.Index {
					return bad("compound index", t.CompoundIdxs[y][x], g.Index)
				}
			}
			for k := 0; k < 4; k++ {
				if s.DeltaLFs[y][x][k] != g.DeltaLF[k] {
					return bad("loop filter deltas", s.DeltaLFs[y][x], g.DeltaLF)
				}
			}
			for k := 0; k < 2; k++ {
				for j := 0; j < g.Pal[k]; j++ {
					if v := t.PaletteColors[k][y][x][j]; v != g.Colors[k][j] {
						return bad("palette", v, g.Colors[k][j])
					}
				}
			}
		}
	}
	return nil
}

// called is what every stand-in that reads does.
func (w *W) called(name string, args []interface{}) bool {
	if w.fail != nil {
		return false
	}
	if len(w.marks) == 0 || w.marks[0] != name {
		next := "nothing"
		if len(w.marks) > 0 {
			next = w.marks[0]
		}
		w.fail = mc.Failf("order", "%s comes next where %s should", name, next)
		return false
	}
	w.marks = w.marks[1:]
	var br *bitstream.BitStream
	uh := uncompressedheader.UncompressedHeader{DisableCdfUpdate: w.F.NoAdapt}
	for _, a := range args {
		if b, ok := a.(*bitstream.BitStream); ok {
			br = b
		}
	}
	if br == nil {
		panic("model: no bits for " + name)
	}
	if v := literal.L(3, w.S, br, uh); v != 5 {
		w.fail = mc.Failf("order", "%s is reached with something else next in the data", name)
		return false
	}
	return true
}

// Stubs puts the stand-ins in place.
func Stubs() {
	stub := func(name string, f func(w *W, args []interface{})) {
		tilegroup.VerifStub[name] = func(t *tilegroup.TileGroup, args ...interface{}) {
			v, _ := now.Load(t)
			w := v.(*W)
			f(w, args)
			if w.fail != nil {
				panic("a failure was found")
			}
		}
	}
	stub("paletteModeInfo", func(w *W, args []interface{}) {
		if w.called("paletteModeInfo", args) {
			t, x := w.T, &w.want.cell
			t.PaletteSizeY, t.PaletteSizeUV = x.Pal[0], x.Pal[1]
			for i := 0; i < 8; i++ {
				t.PaletteColorsY[i], t.PaletteColorsU[i], t.PaletteColorsV[i] = i+1, 11+i, 50+i
			}
		}
	})
	compound := func(args []interface{}) int {
		for _, a := range args {
			if b, ok := a.(bool); ok {
				return b2i(b)
			}
			if i, ok := a.(int); ok {
				return i
			}
		}
		return -1
	}
	stub("findMvStack", func(w *W, args []interface{}) {
		if w.fail != nil {
			return
		}
		t, s, e := w.T, w.S, w.want
		if s.MiRow != e.r || s.MiCol != e.c || s.MiSize != e.size || s.RefFrame[0] != e.cell.Ref[0] || (s.RefFrame[1] > 0 || e.cell.Ref[1] > 0) && s.RefFrame[1] != e.cell.Ref[1] || e.intrabc == 1 && s.RefFrame[1] != -1 {
			w.fail = mc.Failf("candidates", "candidates are searched for a block at %d,%d of size %d with references %v, want references %v", s.MiRow, s.MiCol, s.MiSize, s.RefFrame, e.cell.Ref)
			return
		}
		if c := compound(args); c != b2i(e.cell.Ref[1] > 0) {
			w.fail = mc.Failf("candidates", "candidates are searched for compound prediction: %v, references %v", c, e.cell.Ref)
			return
		}
		t.NumMvFound, t.NewMvContext, t.RefMvContext, t.ZeroMvContext, t.DrlCtxStack = w.St.Found, w.St.NewCtx, w.St.RefCtx, w.St.ZeroCtx, w.St.Drl
	})
	stub("assignMv", func(w *W, args []interface{}) {
		if !w.called("assignMv", args) {
			return
		}
		t, e := w.T, w.want
		if c := compound(args); c != b2i(e.cell.Ref[1] > 0) {
			w.fail = mc.Failf("vectors", "vectors are read for compound prediction: %v, references %v", c, e.cell.Ref)
			return
		}
		if e.intrabc == 0 {
			if t.YMode != e.cell.YMode {
				w.fail = mc.Failf("mode", "mode is %d, want %d", t.YMode, e.cell.YMode)
			} else if t.RefMvIdx != e.refIdx {
				w.fail = mc.Failf("index", "index of the candidate is %d, want %d", t.RefMvIdx, e.refIdx)
			}
		}
		if u := tilegroup.VerifGetUseIntrabc(t); w.fail == nil && u != e.intrabc {
			w.fail = mc.Failf("block copy", "block copy is %d, want %d", u, e.intrabc)
		}
		t.Mv = e.cell.Mv
	})
	stub("findWarpSamples", func(w *W, args []interface{}) { w.T.NumSamples = w.St.Samples })
	stub("paletteTokens", func(w *W, args []interface{}) {
		if w.called("paletteTokens", args) {
			w.fail = w.info(w.want)
		}
	})
	stub("readBlockTxSize", func(w *W, args []interface{}) {
		if w.called("readBlockTxSize", args) {
			w.T.TxSize = w.want.cell.Tx
		}
	})
	stub("computePrediction", func(w *W, args []interface{}) {
		if w.fail == nil {
			if len(w.marks) == 0 || w.marks[0] != "residual" {
				w.fail = mc.Failf("order", "prediction starts where %v should follow", w.marks)
			}
			w.want.predicted++
		}
	})
	stub("residual", func(w *W, args []interface{}) {
		if !w.called("residual", args) {
			return
		}
		e := w.want
		if e.predicted != 1 {
			w.fail = mc.Failf("order", "the block was predicted %d times", e.predicted)
			return
		}
		e.done++
		for p := 0; p < 3 && w.fail == nil; p++ {
			sx, sy := 0, 0
			if p > 0 {
				sx, sy = w.F.SubX, w.F.SubY
			}
			clear := e.cell.Skip == 1 && (p == 0 || e.chroma)
			for i := 0; i < N && w.fail == nil; i++ {
				a := clear && i >= e.c>>uint(sx) && i <= (e.c+Wide[e.size]-1)>>uint(sx)
				l := clear && i >= e.r>>uint(sy) && i <= (e.r+High[e.size]-1)>>uint(sy)
				if w.T.AboveLevelContext[p][i] != 7*b2i(!a) || w.T.AboveDcContext[p][i] != 2*b2i(!a) {
					w.fail = mc.Failf("contexts", "contexts of coefficients above %d of plane %d are %d, %d; cleared: %v", i, p, w.T.AboveLevelContext[p][i], w.T.AboveDcContext[p][i], a)
				} else if w.T.LeftLevelContext[p][i] != 9*b2i(!l) || w.T.LeftDcContext[p][i] != b2i(!l) {
					w.fail = mc.Failf("contexts", "contexts of coefficients left of %d of plane %d are %d, %d; cleared: %v", i, p, w.T.LeftLevelContext[p][i], w.T.LeftDcContext[p][i], l)
				}
			}
		}
		for p := 0; p < 3; p++ {
			for i := 0; i < N; i++ {
				w.T.AboveLevelContext[p][i], w.T.AboveDcContext[p][i], w.T.LeftLevelContext[p][i], w.T.LeftDcContext[p][i] = 7, 2, 9, 1
			}
		}
	})
}

// Chooser chooses symbols: those named in all freely, those fixed as given, any other at a cost if it is not the first.
func Chooser(c *mc.Ch, fixed map[string]int, all ...string) func(name string, n int) int {
	free := map[string]bool{}
	for _, a := range all {
		free[a] = true
	}
	return func(name string, n int) int {
		if v, ok := fixed[name]; ok {
			if v >= n {
				return n - 1
			}
			return v
		}
		if free[name] {
			return c.All(n)
		}
		return c.Pick(n, 1)
	}
}
