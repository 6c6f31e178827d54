//go:build !noshim

// C37: the coefficients of a transform block.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/sym"
	"github.com/m4tthewde/gov1/internal/zzverif/txm"
)

// class of a transform type: 0 two-dimensional, 1 horizontal, 2 vertical.
func class(typ int) int {
	switch k := txm.Kinds[typ]; {
	case k == "II":
		return 0
	case k[0] == 'I':
		return 1
	case k[1] == 'I':
		return 2
	}
	return 0
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// scan lists row and column of the coefficients of a w x h block in coding order.
func scan(w, h, typ int) [][2]int {
	var o [][2]int
	switch class(typ) {
	case 1: // column by column
		for c := 0; c < w; c++ {
			for r := 0; r < h; r++ {
				o = append(o, [2]int{r, c})
			}
		}
		return o
	case 2:
		for r := 0; r < h; r++ {
			for c := 0; c < w; c++ {
				o = append(o, [2]int{r, c})
			}
		}
		return o
	}
	for d := 0; d < w+h-1; d++ {
		// from the top row downwards on odd diagonals of a square block and in tall blocks
		down := h > w || h == w && d&1 == 1
		for k := 0; k <= d; k++ {
			r := k
			if !down {
				r = d - k
			}
			if c := d - r; r < h && c < w {
				o = append(o, [2]int{r, c})
			}
		}
	}
	return o
}

// order is how the transform types of a set are coded.
var interSets = [4][]string{nil,
	{"II", "DI", "ID", "AI", "IA", "FI", "IF", "DD", "AD", "DA", "FD", "DF", "AA", "FF", "AF", "FA"},
	{"II", "DI", "ID", "DD", "AD", "DA", "FD", "DF", "AA", "FF", "AF", "FA"},
	{"II", "DD"}}
var intraSets = [3][]string{nil,
	{"II", "DD", "DI", "ID", "AA", "AD", "DA"},
	{"II", "DD", "AA", "AD", "DA"}}

// modeKind is the transform type that goes with an intra mode, by the number of the mode.
var modeKind = [14]string{"DD", "AD", "DA", "DD", "AA", "AD", "DA", "DA", "AD", "AA", "AD", "DA", "AA", "DD"}

func typeOf(kind string) int {
	for i, k := range txm.Kinds {
		if k == kind {
			return i
		}
	}
	panic(kind)
}

// txb is a transform block and what surrounds it.
type txb struct {
	size, plane    int
	x4, y4         int // position in 4x4 units of the plane
	ssx, ssy       int
	miCols, miRows int
	blk            int // block size
	miCol, miRow   int
	inter, reduced bool
	qidx, segQ     int // base index, and offset of the block's segment (1000: segmentation off)
	lossless       bool
	yMode, uvMode  int
	filter         int // filter intra mode, -1 none
	typ            int // luma: type wanted; chroma of inter blocks: type stored for the luma block
	level          []int // by scan position; signed; nil: all zero
	above, left    [2]int // level and dc context around, the same at each position unless vary
	vary           int
	noAdapt        bool
}

func (b *txb) String() string {
	c := *b
	if len(c.level) > 40 {
		c.level = c.level[:40]
	}
	return fmt.Sprintf("%+v (%d coefficients)", c, len(b.level))
}

func (b *txb) set() (list []string, name int) {
	lw, lh := txm.Sizes[b.size][0], txm.Sizes[b.size][1]
	lo, hi := min(lw, lh), max(lw, lh)
	if hi > 5 {
		return nil, 0
	}
	if b.inter {
		switch {
		case b.reduced || hi == 5:
			return interSets[3], 3
		case lo == 4:
			return interSets[2], 2
		}
		return interSets[1], 1
	}
	switch {
	case hi == 5:
		return nil, 0
	case b.reduced || lo == 4:
		return intraSets[2], 2
	}
	return intraSets[1], 1
}

func find(l []string, k string) int {
	for i, x := range l {
		if x == k {
			return i
		}
	}
	return -1
}

// ctxAt is what the contexts hold at a distance from the block's first unit.
func (b *txb) ctxAt(c [2]int, k int) (int, int) {
	switch b.vary {
	case 1: // only the last unit of the block
		lw, lh := txm.Sizes[b.size][0], txm.Sizes[b.size][1]
		if k != (1<<uint(max(lw, lh)))/4-1 {
			return 0, 0
		}
	case 2:
		if k != 0 {
			return 0, 0
		}
	case 3: // signs alternate
		if k&1 == 1 && c[1] > 0 {
			return c[0], 3 - c[1]
		}
	}
	return c[0], c[1]
}

type work struct {
	t *tilegroup.TileGroup
	s *state.State
	k *sym.Coder
}

var names = []string{"TxbSkip", "EobPt16", "EobPt32", "EobPt64", "EobPt128", "EobPt256", "EobPt512", "EobPt1024", "EobExtra", "DcSign",
	"CoeffBaseEob", "CoeffBase", "CoeffBr", "IntraTxTypeSet1", "IntraTxTypeSet2", "InterTxTypeSet1", "InterTxTypeSet2", "InterTxTypeSet3"}

var blocks = [22][2]int{{4, 4}, {4, 8}, {8, 4}, {8, 8}, {8, 16}, {16, 8}, {16, 16}, {16, 32}, {32, 16}, {32, 32}, {32, 64}, {64, 32}, {64, 64}, {64, 128}, {128, 64}, {128, 128},
	{4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16}}

func check(c *mc.Ch, bs ...*txb) *mc.Fail {
	w, ok := c.Local["w"].(*work)
	if !ok {
		w = &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
		w.k = sym.New(w.s, names...)
		c.Local["w"] = w
	}
	t, s, k := w.t, w.s, w.k
	k.Reset()
	k.Trace = c.Tracing()
	b0 := bs[0]
	s.MiCols, s.MiRows = b0.miCols, b0.miRows
	tilegroup.VerifClearContexts(t, s)
	// what the contexts hold, in the model
	aL, lL := [3]map[int][2]int{{}, {}, {}}, [3]map[int][2]int{{}, {}, {}}
	for p := 0; p < 3; p++ {
		lw, lh := txm.Sizes[b0.size][0], txm.Sizes[b0.size][1]
		for i := 0; i < 1<<uint(lw-2); i++ {
			l, d := b0.ctxAt(b0.above, i)
			if p != b0.plane {
				l, d = 5, 1
			}
			t.AboveLevelContext[p][b0.x4+i], t.AboveDcContext[p][b0.x4+i] = l, d
			aL[p][b0.x4+i] = [2]int{l, d}
		}
		for i := 0; i < 1<<uint(lh-2); i++ {
			l, d := b0.ctxAt(b0.left, i)
			if p != b0.plane {
				l, d = 9, 2
			}
			t.LeftLevelContext[p][b0.y4+i], t.LeftDcContext[p][b0.y4+i] = l, d
			lL[p][b0.y4+i] = [2]int{l, d}
		}
	}
	types := map[[2]int]int{}
	mark := func(x, y, v int) {
		t.TxTypes[y][x] = v
		types[[2]int{y, x}] = v
	}
	for y := -1; y < 18; y++ {
		for x := -1; x < 18; x++ {
			if b0.y4+y >= 0 && b0.x4+x >= 0 {
				mark(b0.x4+x, b0.y4+y, 9)
			}
		}
	}
	var want []func(got int) *mc.Fail
	var steps []func() *mc.Fail
	for _, b := range bs {
		b := b
		k.Adapt = !b.noAdapt
		lw, lh := txm.Sizes[b.size][0], txm.Sizes[b.size][1]
		w4, h4 := 1<<uint(lw-2), 1<<uint(lh-2)
		sqr, sqrUp := min(lw, lh)-2, max(lw, lh)-2
		sz := (sqr + sqrUp + 1) / 2
		pt := min(b.plane, 1)
		cw, ch := 1<<uint(min(lw, 5)), 1<<uint(min(lh, 5))
		// contexts from around the block, inside the frame
		maxX, maxY := b.miCols, b.miRows
		bw, bh := blocks[b.blk][0], blocks[b.blk][1]
		if b.plane > 0 {
			maxX, maxY = maxX>>uint(b.ssx), maxY>>uint(b.ssy)
			bw, bh = max(4, bw>>uint(b.ssx)), max(4, bh>>uint(b.ssy))
		}
		top, left, anyTop, anyLeft, sum := 0, 0, 0, 0, 0
		sgn := [3]int{0, -1, 1}
		for i := 0; i < w4 && b.x4+i < maxX; i++ {
			e := aL[b.plane][b.x4+i]
			top = max(top, e[0])
			anyTop |= e[0] | e[1]
			sum += sgn[e[1]]
		}
		for i := 0; i < h4 && b.y4+i < maxY; i++ {
			e := lL[b.plane][b.y4+i]
			left = max(left, e[0])
			anyLeft |= e[0] | e[1]
			sum += sgn[e[1]]
		}
		var ctx int
		if b.plane == 0 {
			few := func(x int) int { // none, few, many
				return b2i(x > 0) + b2i(x > 3)
			}
			lo, hi := min(few(top), few(left)), max(few(top), few(left))
			switch {
			case bw == 1<<uint(lw) && bh == 1<<uint(lh):
				ctx = 0
			case hi == 0:
				ctx = 1
			case lo == 0:
				ctx = 1 + hi
			default:
				ctx = 2 + lo + hi
			}
		} else {
			ctx = 7 + b2i(anyTop != 0) + b2i(anyLeft != 0)
			if bw*bh > 1<<uint(lw+lh) {
				ctx += 3
			}
		}
		k.Sym("TxbSkip", b2i(b.level == nil), sz, ctx)
		typ := -1
		quant := make([]int, cw*ch)
		cul, cat := 0, 0
		if b.level == nil {
			if b.plane == 0 {
				for y := 0; y < h4; y++ {
					for x := 0; x < w4; x++ {
						types[[2]int{b.y4 + y, b.x4 + x}] = 0
					}
				}
			}
		} else {
			list, set := b.set()
			switch {
			case b.plane == 0:
				typ = 0
				q := b.qidx
				if b.segQ != 1000 {
					q = max(0, min(255, q+b.segQ))
				}
				if set > 0 && q > 0 {
					typ = b.typ
					n := find(list, txm.Kinds[typ])
					if n < 0 {
						panic("type")
					}
					if b.inter {
						switch set {
						case 1:
							k.Sym("InterTxTypeSet1", n, sqr)
						case 2:
							k.Sym("InterTxTypeSet2", n)
						case 3:
							k.Sym("InterTxTypeSet3", n, sqr)
						}
					} else {
						dir := b.yMode
						if b.filter >= 0 {
							dir = []int{0, 1, 2, 6, 0}[b.filter]
						}
						if set == 1 {
							k.Sym("IntraTxTypeSet1", n, sqr, dir)
						} else {
							k.Sym("IntraTxTypeSet2", n, sqr, dir)
						}
					}
				}
				for y := 0; y < h4; y++ {
					for x := 0; x < w4; x++ {
						types[[2]int{b.y4 + y, b.x4 + x}] = typ
					}
				}
			case b.inter:
				typ = b.typ
				lx, ly := max(b.miCol, b.x4<<uint(b.ssx)), max(b.miRow, b.y4<<uint(b.ssy))
				for y := ly - 1; y <= ly+1; y++ {
					for x := lx - 1; x <= lx+1; x++ {
						if x >= 0 && y >= 0 {
							mark(x, y, (b.typ+7)%16)
						}
					}
				}
				mark(lx, ly, b.typ)
			default:
				typ = typeOf(modeKind[b.uvMode])
			}
			if b.lossless || sqrUp > 3 || b.plane > 0 && find(list, txm.Kinds[typ]) < 0 {
				typ = 0
			}
			cl := class(typ)
			sc := scan(cw, ch, typ)
			eob := len(b.level)
			// position of the last coefficient: class, then bits from the top
			pc := 0
			for 1<<uint(pc) < eob {
				pc++
			}
			// pc: 0 for 1, 1 for 2, 2 for 3..4, 3 for 5..8
			switch n := min(lw, 5) + min(lh, 5) - 4; n {
			case 5:
				k.Sym("EobPt512", pc, pt)
			case 6:
				k.Sym("EobPt1024", pc, pt)
			default:
				k.Sym([]string{"EobPt16", "EobPt32", "EobPt64", "EobPt128", "EobPt256"}[n], pc, pt, b2i(cl != 0))
			}
			if pc >= 2 {
				rest := eob - 1 - 1<<uint(pc-1)
				k.Sym("EobExtra", rest>>uint(pc-2), sz, pt, pc-2)
				if pc > 2 {
					k.Lit(pc-2, rest&(1<<uint(pc-2)-1))
				}
			}
			mag := func(r, c, lim int, off [][2]int) int {
				m := 0
				for _, o := range off {
					if r+o[0] < ch && c+o[1] < cw {
						v := quant[(r+o[0])*cw+c+o[1]]
						if v < 0 {
							v = -v
						}
						m += min(v, lim)
					}
				}
				return m
			}
			for n := eob - 1; n >= 0; n-- {
				r, cc := sc[n][0], sc[n][1]
				v := b.level[n]
				if v < 0 {
					v = -v
				}
				if n == eob-1 {
					e := 0
					if n > 0 {
						e = 1 + b2i(n > cw*ch/8) + b2i(n > cw*ch/4)
					}
					k.Sym("CoeffBaseEob", min(v, 3)-1, sz, pt, e)
				} else {
					nb := [][2]int{{0, 1}, {1, 0}, {1, 1}, {0, 2}, {2, 0}}
					if cl == 1 {
						nb = [][2]int{{0, 1}, {1, 0}, {0, 2}, {0, 3}, {0, 4}}
					} else if cl == 2 {
						nb = [][2]int{{0, 1}, {1, 0}, {2, 0}, {3, 0}, {4, 0}}
					}
					e := min((mag(r, cc, 3, nb)+1)/2, 4)
					switch {
					case cl == 1:
						e += 26 + 5*min(cc, 2)
					case cl == 2:
						e += 26 + 5*min(r, 2)
					case r+cc == 0:
						e = 0
					case lw < lh && r < 2:
						e += 11
					case lw > lh && cc < 2:
						e += 16
					case lw == lh && r+cc < 2:
						e++
					case r+cc < 4:
						e += 6
					default:
						e += 21
					}
					k.Sym("CoeffBase", min(v, 3), sz, pt, e)
				}
				if v > 2 {
					nb := [][2]int{{0, 1}, {1, 0}, {1, 1}}
					if cl == 1 {
						nb[2] = [2]int{0, 2}
					} else if cl == 2 {
						nb[2] = [2]int{2, 0}
					}
					e := min((mag(r, cc, 15, nb)+1)/2, 6)
					switch {
					case r+cc == 0:
					case cl == 0 && r < 2 && cc < 2, cl == 1 && cc == 0, cl == 2 && r == 0:
						e += 7
					default:
						e += 14
					}
					for i := 0; i < 4; i++ {
						d := min(3, v-3-3*i)
						k.Sym("CoeffBr", d, min(sz, 3), pt, e)
						if d < 3 {
							break
						}
					}
				}
				quant[r*cw+cc] = v
			}
			for n := 0; n < eob; n++ {
				r, cc := sc[n][0], sc[n][1]
				v := quant[r*cw+cc]
				neg := b.level[n] < 0
				if v != 0 {
					if n == 0 {
						e := 0
						if sum < 0 {
							e = 1
						} else if sum > 0 {
							e = 2
						}
						k.Sym("DcSign", b2i(neg), pt, e)
					} else {
						k.Lit(1, b2i(neg))
					}
				}
				if v > 14 {
					// unary length, then the bits below the leading one
					x, l := v-14, 0
					for x>>uint(l) > 1 {
						l++
					}
					k.Lit(l, 0)
					k.Lit(1, 1)
					k.Lit(l, x&(1<<uint(l)-1))
				}
				if r+cc == 0 && v > 0 {
					cat = 2 - b2i(neg)
				}
				v &= 1<<20 - 1
				cul += v
				if neg {
					v = -v
				}
				quant[r*cw+cc] = v
			}
			cul = min(cul, 63)
		}
		for i := 0; i < w4; i++ {
			aL[b.plane][b.x4+i] = [2]int{cul, cat}
		}
		for i := 0; i < h4; i++ {
			lL[b.plane][b.y4+i] = [2]int{cul, cat}
		}
		want = append(want, func(got int) *mc.Fail {
			if got != len(b.level) {
				return mc.Failf("end of block", "%v: returned %d coefficients, want %d", b, got, len(b.level))
			}
			for i, v := range quant {
				if t.Quant[i] != v {
					return mc.Failf("coefficient", "%v: coefficient at row %d column %d is %d, want %d", b, i/cw, i%cw, t.Quant[i], v)
				}
			}
			if typ >= 0 && t.PlaneTxType != typ {
				return mc.Failf("transform type", "%v: transform type %d, want %d", b, t.PlaneTxType, typ)
			}
			return nil
		})
	}
	br := k.Start()
	for i, b := range bs {
		b := b
		i := i
		steps = append(steps, func() *mc.Fail {
			sh := sequenceheader.SequenceHeader{}
			sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY, sh.ColorConfig.NumPlanes = b.ssx == 1, b.ssy == 1, 3
			uh := uncompressedheader.UncompressedHeader{}
			uh.BaseQIdx, uh.ReducedTxSet, uh.DisableCdfUpdate = b.qidx, b.reduced, b.noAdapt
			uh.SegmentationEnabled = b.segQ != 1000
			t.SegmentId, t.Lossless, t.IsInter = 3, b.lossless, b2i(b.inter)
			for g := 0; g < 8; g++ {
				s.FeatureEnabled[g][shared.SEG_LVL_ALT_Q], s.FeatureData[g][shared.SEG_LVL_ALT_Q] = 1, 1-b.segQ
			}
			s.FeatureEnabled[3][shared.SEG_LVL_ALT_Q], s.FeatureData[3][shared.SEG_LVL_ALT_Q] = b2i(b.segQ != 0), b.segQ
			// delta_q is not to matter for the choice of the transform type
			uh.DeltaQPresent, s.CurrentQIndex = true, 255-b.qidx
			t.YMode, t.UVMode, t.UseFilterIntra = b.yMode, b.uvMode, b.filter >= 0
			if b.filter >= 0 {
				t.FilterIntraMode = b.filter
			}
			s.MiSize, s.MiCol, s.MiRow = b.blk, b.miCol, b.miRow
			if i == 0 {
				for j := range t.Quant {
					t.Quant[j] = 77
				}
			}
			t.PlaneTxType = 99
			got := -1
			if e := mc.Catch(func() { got = tilegroup.VerifCoeffs(t, b.plane, 4*b.x4, 4*b.y4, b.size, br, uh, s, sh) }); e != nil {
				return mc.Failf("panic", "%v: %v %v", b, e, k.Log)
			}
			if f := want[i](got); f != nil {
				f.Desc += fmt.Sprint(" ", k.Log)
				return f
			}
			return nil
		})
	}
	c.Inner++
	for _, f := range steps {
		c.Steps++
		if e := f(); e != nil {
			return e
		}
	}
	if f := k.Check(br); f != nil {
		f.Desc = fmt.Sprint(bs, ": ", f.Desc)
		return f
	}
	for at, v := range types {
		if g := t.TxTypes[at[0]][at[1]]; g != v {
			return mc.Failf("stored transform types", "%v: type at row %d column %d is %d, want %d", bs, at[0], at[1], g, v)
		}
	}
	for p := 0; p < 3; p++ {
		for x := range t.AboveLevelContext[p] {
			if e := aL[p][x]; t.AboveLevelContext[p][x] != e[0] || t.AboveDcContext[p][x] != e[1] {
				return mc.Failf("context above", "%v: context above of plane %d at %d is %d %d, want %v", bs, p, x, t.AboveLevelContext[p][x], t.AboveDcContext[p][x], e)
			}
		}
		for y := range t.LeftLevelContext[p] {
			if e := lL[p][y]; t.LeftLevelContext[p][y] != e[0] || t.LeftDcContext[p][y] != e[1] {
				return mc.Failf("context left", "%v: context left of plane %d at %d is %d %d, want %v", bs, p, y, t.LeftLevelContext[p][y], t.LeftDcContext[p][y], e)
			}
		}
	}
	return nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func base(size int) *txb {
	b := &txb{size: size, miCols: 40, miRows: 40, qidx: 100, segQ: 1000, filter: -1, blk: 15}
	b.ssx, b.ssy = 1, 1
	b.miCol, b.miRow = 4, 8
	b.x4, b.y4 = 4, 8
	return b
}

// ofPlane moves the block to a plane.
func (b *txb) ofPlane(p int) *txb {
	b.plane = p
	if p > 0 {
		b.x4, b.y4 = b.miCol>>uint(b.ssx), b.miRow>>uint(b.ssy)
	}
	return b
}

// able sets what makes the type possible; false if nothing does.
func (b *txb) able(typ int) bool {
	b.typ = typ
	for _, b.inter = range []bool{false, true} {
		l, set := b.set()
		if set == 0 {
			if typ == 0 {
				return true
			}
			continue
		}
		if b.plane > 0 && !b.inter {
			for m, k := range modeKind {
				if k == txm.Kinds[typ] && find(l, k) >= 0 {
					b.uvMode = m
					return true
				}
			}
			continue
		}
		if find(l, txm.Kinds[typ]) >= 0 {
			return true
		}
	}
	return false
}

var alphabet = []int{0, 1, -1, 2, -2, 3, 5, -6, 8, 9, -11, 14, 15, -16, 17, -30}

func main() {
	r := mc.Start()
	thorough := r.Thorough()
	r.Explore(
		mc.Scenario{Name: "every end of block", Run: func(c *mc.Ch) *mc.Fail {
			b := base(c.All(19))
			b.ofPlane(c.All(3))
			typ := []int{0, 9, 10, 11, 12, 15}[c.All(6)]
			if !b.able(typ) {
				return nil
			}
			lw, lh := min(txm.Sizes[b.size][0], 5), min(txm.Sizes[b.size][1], 5)
			n := 1 << uint(lw+lh)
			part := c.All(4)
			c.Note("size %d plane %d type %d, part %d of 4", b.size, b.plane, typ, part)
			for eob := 1 + part*n/4; eob <= (part+1)*n/4; eob++ {
				if !thorough && n > 128 && (b.plane > 0 || typ != 0) && eob&(eob-1) != 0 && (eob-1)&(eob-2) != 0 && eob%29 != 3 && eob != n {
					continue
				}
				if !thorough && n > 256 && eob&(eob-1) != 0 && (eob-1)&(eob-2) != 0 && eob%7 != 3 && eob != n {
					continue
				}
				b.level = make([]int, eob)
				for i := range b.level {
					switch eob % 3 {
					case 0:
						b.level[i] = alphabet[(i*i*3+i*eob+eob)%len(alphabet)]
					case 1:
						b.level[i] = alphabet[(i*5+eob)%5]
					case 2:
						b.level[i] = b2i((i*eob+i/7)%5 == 0)
					}
				}
				if b.level[eob-1] == 0 {
					b.level[eob-1] = 1 + eob%4
				}
				b.noAdapt = eob%4 == 3
				if f := check(c, b); f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "small blocks", Run: func(c *mc.Ch) *mc.Fail {
			// every choice of levels for the first coefficients
			b := base([]int{0, 5, 6, 1, 13}[c.All(5)])
			b.ofPlane(c.All(2))
			typ := []int{0, 10, 11}[c.All(3)]
			if !b.able(typ) {
				return nil
			}
			al := []int{0, 1, -2, 3, 7, 15}
			first := al[c.All(len(al))]
			n := 4
			if thorough {
				n = 5
			}
			c.Note("size %d plane %d type %d dc %d", b.size, b.plane, typ, first)
			all := 1
			for i := 0; i < n; i++ {
				all *= len(al)
			}
			for x := 0; x < all; x++ {
				b.level = []int{first}
				for i, y := 0, x; i < n; i++ {
					b.level = append(b.level, al[y%len(al)])
					y /= len(al)
				}
				if b.level[n] == 0 {
					b.level[n] = -1
					if x%2 == 0 { // also without this last one
						b.level = b.level[:n]
						if b.level[n-1] == 0 {
							b.level[n-1] = 4
						}
					}
				}
				if f := check(c, b); f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "sizes of coefficients", Run: func(c *mc.Ch) *mc.Fail {
			b := base([]int{0, 2, 4}[c.All(3)])
			at := c.All(3)
			lo := c.All(5)
			neg := c.All(2)
			c.Note("size %d position %d, values from 2^%d", b.size, at, 4*lo)
			var vs []int
			for e := uint(4 * lo); e < uint(4*lo+4); e++ {
				for d := -3; d <= 3; d++ {
					for _, o := range []int{0, 14} {
						if v := 1<<e + d + o; v > 0 {
							vs = append(vs, v)
						}
					}
				}
			}
			if lo == 4 {
				vs = append(vs, 1<<20-1, 1<<20, 1<<20+1, 1<<20+13)
			}
			for _, v := range vs {
				b.level = []int{1, 0, -1}
				b.level[at] = v * (1 - 2*neg)
				if f := check(c, b); f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "contexts around", Run: func(c *mc.Ch) *mc.Fail {
			b := base(c.All(19))
			b.ssx, b.ssy = c.All(2), c.All(2)
			if b.ssx < b.ssy {
				return nil
			}
			b.ofPlane(c.All(3))
			edge := c.All(4)
			vary := c.All(4)
			lw, lh := txm.Sizes[b.size][0], txm.Sizes[b.size][1]
			c.Note("size %d plane %d subsampling %d%d frame edge %d, arrangement %d", b.size, b.plane, b.ssx, b.ssy, edge, vary)
			b.vary = vary
			if edge&1 == 1 { // the frame ends within the block, or right after its first column
				b.miCols = (b.x4 + (1<<uint(lw-2)+1)/2)
				if b.plane > 0 {
					b.miCols <<= uint(b.ssx)
				}
			}
			if edge&2 == 2 {
				b.miRows = (b.y4 + (1<<uint(lh-2)+1)/2)
				if b.plane > 0 {
					b.miRows <<= uint(b.ssy)
				}
			}
			// a block of the same size as the transform in this plane, and larger ones
			for k := 0; k < 22; k++ {
				b.blk = k
				bw, bh := blocks[k][0], blocks[k][1]
				if b.plane > 0 {
					if b.ssx > b.ssy && bw < bh {
						continue // has no chroma block
					}
					if bw>>uint(b.ssx) < 4 || bh>>uint(b.ssy) < 4 {
						continue
					}
					bw, bh = bw>>uint(b.ssx), bh>>uint(b.ssy)
					if bw*4 < bh || bh*4 < bw {
						continue
					}
				}
				if bw < 1<<uint(lw) || bh < 1<<uint(lh) {
					continue
				}
				if !thorough && (bw > 2<<uint(lw) || bh > 2<<uint(lh)) {
					continue
				}
				for _, al := range []int{0, 1, 3, 4, 63} {
					for _, ll := range []int{0, 1, 3, 4, 63} {
						for ad := 0; ad < 3; ad++ {
							for ld := 0; ld < 3; ld++ {
								if !thorough && (al+ll)%2 == 1 && ad+ld == 3 {
									continue
								}
								b.above, b.left = [2]int{al, ad}, [2]int{ll, ld}
								b.level = nil
								if (al+ad+ld)%3 > 0 {
									b.level = []int{1 - 2*(ll&1)}
								}
								if f := check(c, b); f != nil {
									return f
								}
							}
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "transform types", Run: func(c *mc.Ch) *mc.Fail {
			b := base(c.All(19))
			b.inter, b.reduced = c.All(2) == 1, c.All(2) == 1
			b.lossless = c.All(2) == 1
			c.Note("size %d inter %v reduced %v lossless %v", b.size, b.inter, b.reduced, b.lossless)
			if b.lossless && b.size > 0 {
				return nil
			}
			l, _ := b.set()
			for _, q := range []([2]int){{100, 1000}, {0, 1000}, {1, 1000}, {255, -255}, {100, -99}, {100, -100}, {0, 1}, {0, 0}, {3, 0}} {
				b.qidx, b.segQ = q[0], q[1]
				if b.lossless {
					b.qidx, b.segQ = 0, 1000
				}
				for i := 0; i < max(1, len(l)); i++ {
					b.typ = 0
					if len(l) > 0 {
						b.typ = typeOf(l[i])
					}
					for b.yMode = 0; b.yMode < 13; b.yMode++ {
						for b.filter = -1; b.filter < 5; b.filter++ {
							if b.filter >= 0 && b.yMode != 0 || b.inter && b.yMode > 1 {
								continue
							}
							b.level = []int{1, 2, 0, 1}
							if f := check(c, b); f != nil {
								return f
							}
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "transform types of chroma", Run: func(c *mc.Ch) *mc.Fail {
			b := base(c.All(19))
			b.inter, b.reduced = c.All(2) == 1, c.All(2) == 1
			b.ssx, b.ssy = c.All(2), c.All(2)
			if b.ssx < b.ssy {
				return nil
			}
			p := 1 + c.All(2)
			c.Note("size %d inter %v reduced %v subsampling %d%d plane %d", b.size, b.inter, b.reduced, b.ssx, b.ssy, p)
			b.ofPlane(p)
			for odd := 0; odd < 4; odd++ {
				// blocks of 4x4 luma samples carry the chroma of the ones before
				b.miCol, b.miRow = 4+odd&1, 8+odd>>1
				b.ofPlane(p)
				for m := 0; m < 16; m++ {
					b.typ, b.uvMode = m, m%14
					for _, b.lossless = range []bool{false, true} {
						if b.lossless && b.size > 0 {
							continue
						}
						b.level = []int{2, 1, 1, 0, -3}
						if f := check(c, b); f != nil {
							return f
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "blocks one after another", Run: func(c *mc.Ch) *mc.Fail {
			size := c.All(19)
			p := c.All(2)
			lw, lh := txm.Sizes[size][0], txm.Sizes[size][1]
			w4, h4 := 1<<uint(lw-2), 1<<uint(lh-2)
			n := 3
			if thorough {
				n = 4
			}
			k := make([]int, n)
			for i := range k {
				k[i] = c.All(4)
			}
			c.Note("size %d plane %d contents %v", size, p, k)
			for off := 0; off < 2; off++ {
				var bs []*txb
				for i := range k {
					b := base(size)
					b.ofPlane(p)
					b.x4 += i & 1 * w4
					b.y4 += i >> 1 * h4
					b.miCols, b.miRows = 80, 80
					b.noAdapt = off == 1
					b.level = [][]int{nil, {1}, {-3, 0, 1}, {0, 20, -2, 1, 1, 1}}[k[i]]
					bs = append(bs, b)
				}
				if f := check(c, bs...); f != nil {
					return f
				}
			}
			return nil
		}},
	)
	r.Bound("19 transform sizes x 3 planes x 6 transform types: every end of block position (the quick tier thins those of more than 128 coefficients out), with levels of three patterns; all levels of a 6-letter alphabet for the first 5 coefficients (6 in the thorough tier) of 5 small sizes; values around every power of two up to 2^20")
	r.Bound("contexts: levels {0,1,3,4,63} and signs above and left, 4 arrangements, frame ends inside the block, all block sizes that hold the transform; every transform type and intra mode in every set, 9 quantizer index settings; sequences of 3 blocks (4 in the thorough tier) with 4 contents each")
	r.Bound("every distribution differs from every other, so that a wrong context shows in the values, the symbol state or the adapted distributions, all of which are compared")
	r.Assume("the reference encoder follows the syntax and context rules of the AV1 specification")
	r.Finish()
}
