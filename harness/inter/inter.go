// Package inter is the reference model of inter prediction (AV1 specification 7.11.3) and of what it is told about
// warps (7.10.4, 7.11.3.6 to 7.11.3.8), over whole blocks.
package inter

import (
	"github.com/m4tthewde/gov1/internal/zzverif/intra"
	"github.com/m4tthewde/gov1/internal/zzverif/tabs"
)

// Width and height of the block sizes.
var Wide = []int{4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 32, 64, 64, 64, 128, 128, 4, 16, 8, 32, 16, 64}
var High = []int{4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 64, 32, 64, 128, 64, 128, 16, 4, 32, 8, 64, 16}

// Ways to combine predictions, as gov1 numbers them.
const (
	Wedge = iota
	Diff
	Average
	FromIntra
	Distance
)

// Motion modes.
const (
	Simple = iota
	Overlapped
	Local
)

const (
	GlobalMode, GlobalGlobal = 16, 24
)

// Tables are the tables of constants.
type Tables struct {
	Sub        [][][]int
	Warp       [][]int
	Weights    []int
	QW, QL     [][]int
	Overlap    map[int][]int
	DivFactors []int
}

// Load reads the tables.
func Load(dir string) *Tables {
	g := tabs.Load(dir)
	t := &Tables{Sub: g.I3("Subpel_Filters"), Warp: g.I2("Warped_Filters"), Weights: g.I1("Ii_Weights_1d"), QW: g.I2("Quant_Dist_Weight"), QL: g.I2("Quant_Dist_Lookup")}
	t.Overlap = map[int][]int{
		2:  {45, 64},
		4:  {39, 50, 59, 64},
		8:  {36, 42, 48, 53, 57, 61, 64, 64},
		16: {34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64},
		32: {33, 35, 36, 38, 40, 41, 43, 44, 45, 47, 48, 50, 51, 52, 53, 55, 56, 57, 58, 59, 60, 60, 61, 62, 64, 64, 64, 64, 64, 64, 64, 64},
	}
	for i := 0; i <= 256; i++ {
		t.DivFactors = append(t.DivFactors, (1<<22+(256+i)/2)/(256+i))
	}
	return t
}

// Plane is a plane of samples.
type Plane = [][]int

// Picture is a frame that can be referred to.
type Picture struct {
	W, H int // of luma
	P    [3]Plane
}

// Cell is what is known of 4x4 samples.
type Cell struct {
	Size   int
	Ref    [2]int
	Mv     [2][2]int
	Filter [2]int // vertically, horizontally
}

// Frame is what is set for a frame.
type Frame struct {
	W, Up, H   int // width coded, width, height
	Rows, Cols int // in units of 4 samples
	Depth      int
	SubX, SubY int
	Mono       bool
	Pics       [8]Picture
	Slot       [8]int // of references
	Type       [8]int // of global motion
	Gm         [8][6]int
	Hint       int
	Hints      [8]int
	HintBits   int // 0: no order hints
	Integer    bool
	Cur        [3]Plane
	Cells      [64][64]Cell
}

// Block is the block.
type Block struct {
	R, C, Size                 int
	Ref                        [2]int
	Mv                         [2][2]int
	Mode                       int
	Motion                     int
	Compound                   int
	InterIntra                 bool
	II                         int // mode of the intra prediction
	IIWedge                    bool
	Wedge                      int
	Sign                       int
	MaskType                   int
	Copy                       bool // intra block copy
	Above, Left, AboveC, LeftC bool
	Chroma                     bool
	Samples                    [][4]int // of the local warp
	Decoded                    func(p, y, x int) bool
	T                          *Tables
	F                          *Frame

	valid bool // local warp
	local [6]int
	mask  [][]int
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int { return -least(-a, -b) }

func abs(a int) int { return most(a, -a) }

func clamp(lo, hi, v int) int { return most(lo, least(hi, v)) }

func round(v, n int) int {
	if n == 0 {
		return v
	}
	return (v + 1<<uint(n-1)) >> uint(n)
}

func roundSigned(v, n int) int {
	if v < 0 {
		return -round(-v, n)
	}
	return round(v, n)
}

func table(w, h int) [][]int {
	all := make([]int, w*h)
	out := make([][]int, h)
	for i := range out {
		out[i] = all[i*w : (i+1)*w]
	}
	return out
}

func (b *Block) clip(v int) int { return clamp(0, 1<<uint(b.F.Depth)-1, v) }

func (b *Block) sub(p int) (int, int) {
	if p == 0 {
		return 0, 0
	}
	return b.F.SubX, b.F.SubY
}

// rounding of the two stages, and what is left.
func (b *Block) rounding(compound bool) (int, int, int) {
	first := 3
	if b.F.Depth == 12 {
		first = 5
	}
	second := 14 - first
	if compound {
		second = 7
	}
	return first, second, 14 - first - second
}

// Divisor gives factor and shift to divide by d.
func (t *Tables) Divisor(d int) (shift, factor int) {
	m := abs(d)
	n := 0
	for m>>uint(n+1) > 0 {
		n++
	}
	e := m - 1<<uint(n)
	if n > 8 {
		e = round(e, n-8)
	} else {
		e <<= uint(8 - n)
	}
	factor = t.DivFactors[e]
	if d < 0 {
		factor = -factor
	}
	return n + 14, factor
}

// Shear splits a warp into a horizontal and a vertical shear.
func (t *Tables) Shear(m [6]int) (valid bool, alpha, beta, gamma, delta int) {
	shift, factor := t.Divisor(m[2])
	trim := func(v int) int { return roundSigned(clamp(-32768, 32767, v), 6) * 64 }
	alpha = trim(m[2] - 65536)
	beta = trim(m[3])
	gamma = trim(roundSigned(m[4]*65536*factor, shift))
	delta = trim(m[5] - roundSigned(m[3]*m[4]*factor, shift) - 65536)
	valid = 4*abs(alpha)+7*abs(beta) < 65536 && 4*abs(gamma)+4*abs(delta) < 65536
	return
}

// Estimate is the warp estimated from samples: rows and columns of the middle of blocks, and of where they come from.
func (t *Tables) Estimate(row, col, size int, mv [2]int, samples [][4]int) (valid bool, m [6]int) {
	middleY := row*4 + High[size]/2 - 1
	middleX := col*4 + Wide[size]/2 - 1
	prod := func(a, b int) int { return (a*b)>>2 + a + b }
	var xx, xy, yy, xu, yu, xv, yv int
	for _, s := range samples {
		y, x := s[0]-middleY*8, s[1]-middleX*8
		v, u := s[2]-middleY*8-mv[0], s[3]-middleX*8-mv[1]
		if abs(x-u) >= 256 || abs(y-v) >= 256 {
			continue
		}
		xx += prod(x, x) + 8
		xy += prod(x, y) + 4
		yy += prod(y, y) + 8
		xu += prod(x, u) + 8
		yu += prod(y, u) + 4
		xv += prod(x, v) + 4
		yv += prod(y, v) + 8
	}
	det := xx*yy - xy*xy
	if det == 0 {
		return false, m
	}
	shift, factor := t.Divisor(det)
	shift -= 16
	for ; shift < 0; shift++ {
		factor *= 2
	}
	entry := func(around, v int) int {
		return clamp(around-8191, around+8191, roundSigned(v*factor, shift))
	}
	m[2] = entry(65536, yy*xu-xy*yu)
	m[3] = entry(0, xx*yu-xy*xu)
	m[4] = entry(0, yy*xv-xy*yv)
	m[5] = entry(65536, xx*yv-xy*xv)
	m[0] = clamp(-1<<23, 1<<23-1, mv[1]*8192-middleX*(m[2]-65536)-middleY*m[3])
	m[1] = clamp(-1<<23, 1<<23-1, mv[0]*8192-middleX*m[4]-middleY*(m[5]-65536))
	return true, m
}

// reference gives the samples referred to and their last positions.
func (b *Block) reference(p, ref int) (f Plane, lastX, lastY int) {
	sx, sy := b.sub(p)
	w, h := b.F.Cols*4, b.F.Rows*4
	if b.Copy {
		f = b.F.Cur[p]
	} else {
		pic := &b.F.Pics[b.F.Slot[ref]]
		f, w, h = pic.P[p], pic.W, pic.H
	}
	return f, (w+sx)>>uint(sx) - 1, (h+sy)>>uint(sy) - 1
}

func (b *Block) scales(ref int) (int, int) {
	if b.Copy {
		return 1 << 14, 1 << 14
	}
	pic := &b.F.Pics[b.F.Slot[ref]]
	return (pic.W<<14 + b.F.W/2) / b.F.W, (pic.H<<14 + b.F.H/2) / b.F.H
}

// translate predicts the area of a plane by moving along a vector of a cell.
func (b *Block) translate(p, x, y, w, h, ref int, mv [2]int, filters [2]int, r0, r1 int) [][]int {
	sx, sy := b.sub(p)
	xs, ys := b.scales(ref)
	f, lastX, lastY := b.reference(p, ref)
	start := func(at, scale, v, s int) int {
		orig := at*16 + (2*v)>>uint(s) + 8
		return roundSigned(orig*scale-8<<14, 8) + 32
	}
	x0, y0 := start(x, xs, mv[1], sx), start(y, ys, mv[0], sy)
	dx, dy := roundSigned(xs, 4), roundSigned(ys, 4)
	kind := func(k, n int) [][]int {
		if n <= 4 {
			switch k {
			case 0, 2:
				k = 4
			case 1:
				k = 5
			}
		}
		return b.T.Sub[k]
	}
	fh, fv := kind(filters[1], w), kind(filters[0], h)
	rows := map[int][]int{}
	line := func(at int) []int {
		if l, ok := rows[at]; ok {
			return l
		}
		l := make([]int, w)
		src := f[clamp(0, lastY, at)]
		for c := range l {
			pos := x0 + dx*c
			sum := 0
			for i, k := range fh[pos>>6&15] {
				sum += k * src[clamp(0, lastX, pos>>10+i-3)]
			}
			l[c] = round(sum, r0)
		}
		rows[at] = l
		return l
	}
	out := table(w, h)
	for r := range out {
		pos := y0 + dy*r
		var l [8][]int
		for i := range l {
			l[i] = line(pos>>10 + i - 3)
		}
		taps := fv[pos>>6&15]
		for c := range out[r] {
			sum := 0
			for i, k := range taps {
				sum += k * l[i][c]
			}
			out[r][c] = round(sum, r1)
		}
	}
	return out
}

// bend predicts the area of a plane by a warp.
func (b *Block) bend(p, x, y, w, h, ref int, m [6]int, r0, r1 int) [][]int {
	sx, sy := b.sub(p)
	f, lastX, lastY := b.reference(p, ref)
	_, alpha, beta, gamma, delta := b.T.Shear(m)
	out := table(w, h)
	for by := 0; by < h; by += 8 {
		for bx := 0; bx < w; bx += 8 {
			cx, cy := (x+bx+4)<<uint(sx), (y+by+4)<<uint(sy)
			px := (m[2]*cx + m[3]*cy + m[0]) >> uint(sx)
			py := (m[4]*cx + m[5]*cy + m[1]) >> uint(sy)
			fx, fy := px&65535, py&65535
			px, py = px>>16, py>>16
			var mid [15][8]int
			for i := range mid {
				src := f[clamp(0, lastY, py+i-7)]
				for j := range mid[i] {
					at := fx + alpha*(j-4) + beta*(i-7)
					sum := 0
					for k, v := range b.T.Warp[round(at, 10)+64] {
						sum += v * src[clamp(0, lastX, px+j-4-3+k)]
					}
					mid[i][j] = round(sum, r0)
				}
			}
			for i := 0; i < least(8, h-by); i++ {
				for j := 0; j < least(8, w-bx); j++ {
					at := fy + gamma*(j-4) + delta*(i-4)
					sum := 0
					for k, v := range b.T.Warp[round(at, 10)+64] {
						sum += v * mid[i+k][j]
					}
					out[by+i][bx+j] = round(sum, r1)
				}
			}
		}
	}
	return out
}

// warp says what warp, if any, serves an area.
func (b *Block) warp(w, h, ref int) (*[6]int, bool) {
	if w < 8 || h < 8 || b.F.Integer {
		return nil, false
	}
	if b.Motion == Local && b.valid {
		return &b.local, true
	}
	if (b.Mode == GlobalMode || b.Mode == GlobalGlobal) && b.F.Type[ref] > 1 {
		if xs, ys := b.scales(ref); xs == 1<<14 && ys == 1<<14 {
			if ok, _, _, _, _ := b.T.Shear(b.F.Gm[ref]); ok {
				return &b.F.Gm[ref], true
			}
		}
	}
	return nil, false
}

// distance is the distance of order hints.
func (b *Block) distance(a, c int) int {
	if b.F.HintBits == 0 {
		return 0
	}
	n := 1 << uint(b.F.HintBits)
	d := ((a-c)%n + n) % n
	if d >= n/2 {
		d -= n
	}
	return d
}

// Weights of the two predictions by distance, in 16ths.
func (b *Block) Weights(refs [2]int) (int, int) {
	far := [2]int{}
	for i, r := range refs {
		far[i] = least(31, abs(b.distance(b.F.Hints[r], b.F.Hint)))
	}
	// the second is weighed against the first
	d0, d1 := far[1], far[0]
	o := 0
	if d0 <= d1 {
		o = 1
	}
	i := 3
	if d0 > 0 && d1 > 0 {
		for i = 0; i < 3; i++ {
			l, r := d0*b.T.QW[i][o], d1*b.T.QW[i][1-o]
			if o == 1 && l > r || o == 0 && l < r {
				break
			}
		}
	}
	return b.T.QL[i][o], b.T.QL[i][1-o]
}

// set a sample of the frame.
func (b *Block) set(p, y, x, v int) { b.F.Cur[p][y][x] = v }

// area predicts an area of a plane from the vectors of a cell.
func (b *Block) area(p, x, y, w, h int, cell *Cell) {
	compound := cell.Ref[1] > 0
	r0, r1, left := b.rounding(compound)
	if p == 0 && b.Motion == Local {
		b.valid, b.local = b.T.Estimate(b.R, b.C, b.Size, b.Mv[0], b.Samples)
		if b.valid {
			b.valid, _, _, _, _ = b.T.Shear(b.local)
		}
	}
	var pred [2][][]int
	for i := range pred {
		if i == 1 && !compound {
			break
		}
		if m, ok := b.warp(w, h, cell.Ref[i]); ok {
			pred[i] = b.bend(p, x, y, w, h, cell.Ref[i], *m, r0, r1)
		} else {
			pred[i] = b.translate(p, x, y, w, h, cell.Ref[i], cell.Mv[i], cell.Filter, r0, r1)
		}
	}
	each := func(f func(i, j int) int) {
		for i := 0; i < h; i++ {
			for j := 0; j < w; j++ {
				b.set(p, y+i, x+j, b.clip(f(i, j)))
			}
		}
	}
	switch {
	case !compound && !b.InterIntra:
		each(func(i, j int) int { return pred[0][i][j] })
	case compound && b.Compound == Average:
		each(func(i, j int) int { return round(pred[0][i][j]+pred[1][i][j], 1+left) })
	case compound && b.Compound == Distance:
		f, g := b.Weights(cell.Ref)
		each(func(i, j int) int { return round(f*pred[0][i][j]+g*pred[1][i][j], 4+left) })
	default:
		b.masks(p, w, h, pred, left)
		sx, sy := b.sub(p)
		if b.InterIntra && !b.IIWedge {
			sx, sy = 0, 0
		}
		each(func(i, j int) int {
			m := 0
			for dy := 0; dy <= sy; dy++ {
				for dx := 0; dx <= sx; dx++ {
					m += b.mask[i<<uint(sy)+dy][j<<uint(sx)+dx]
				}
			}
			m = round(m, sx+sy)
			if b.InterIntra {
				return round(m*b.F.Cur[p][y+i][x+j]+(64-m)*b.clip(pred[0][i][j]), 6)
			}
			return round(m*pred[0][i][j]+(64-m)*pred[1][i][j], 6+left)
		})
	}
	if b.Motion == Overlapped {
		b.overlap(p, w, h, r0, r1)
	}
}

// masks sets the weights of the first prediction.
func (b *Block) masks(p, w, h int, pred [2][][]int, left int) {
	switch {
	case b.InterIntra && b.IIWedge || !b.InterIntra && b.Compound == Wedge:
		if p == 0 {
			b.mask = WedgeMask(Wide[b.Size], High[b.Size], b.Wedge, b.Sign)
		}
	case b.InterIntra:
		b.mask = table(w, h)
		scale := 128 / most(w, h)
		for i := range b.mask {
			for j := range b.mask[i] {
				b.mask[i][j] = map[int]int{0: 32, 1: b.T.Weights[i*scale], 2: b.T.Weights[j*scale], 3: b.T.Weights[least(i, j)*scale]}[b.II]
			}
		}
	case p == 0:
		b.mask = table(w, h)
		for i := range b.mask {
			for j := range b.mask[i] {
				d := round(abs(pred[0][i][j]-pred[1][i][j]), b.F.Depth-8+left)
				m := least(64, 38+d/16)
				if b.MaskType == 1 {
					m = 64 - m
				}
				b.mask[i][j] = m
			}
		}
	}
}

func log2(n int) int {
	l := 0
	for 1<<uint(l) < n {
		l++
	}
	return l
}

// overlap blends with what the vectors of the blocks above and left predict.
func (b *Block) overlap(p, w, h, r0, r1 int) {
	sx, sy := b.sub(p)
	f := b.F
	blend := func(cell *Cell, x, y, pw, ph int, weight func(i, j int) int) {
		pred := b.translate(p, x, y, pw, ph, cell.Ref[0], cell.Mv[0], cell.Filter, r0, r1)
		for i := 0; i < ph; i++ {
			for j := 0; j < pw; j++ {
				m := weight(i, j)
				b.set(p, y+i, x+j, round(m*f.Cur[p][y+i][x+j]+(64-m)*b.clip(pred[i][j]), 6))
			}
		}
	}
	if b.Above && !(w*h < 64 && most(w, h) < 16) {
		seen := 0
		for c := b.C; c < least(f.Cols, b.C+Wide[b.Size]/4) && seen < least(4, log2(Wide[b.Size]/4)); {
			cell := &f.Cells[b.R-1][c|1]
			n := clamp(2, 16, Wide[cell.Size]/4)
			if cell.Ref[0] > 0 {
				seen++
				ph := least(h/2, 32>>uint(sy))
				m := b.T.Overlap[ph]
				blend(cell, c*4>>uint(sx), b.R*4>>uint(sy), least(w, n*4>>uint(sx)), ph, func(i, j int) int { return m[i] })
			}
			c += n
		}
	}
	if b.Left {
		seen := 0
		for r := b.R; r < least(f.Rows, b.R+High[b.Size]/4) && seen < least(4, log2(High[b.Size]/4)); {
			cell := &f.Cells[r|1][b.C-1]
			n := clamp(2, 16, High[cell.Size]/4)
			if cell.Ref[0] > 0 {
				seen++
				pw := least(w/2, 32>>uint(sx))
				m := b.T.Overlap[pw]
				blend(cell, b.C*4>>uint(sx), r*4>>uint(sy), pw, least(h, n*4>>uint(sy)), func(i, j int) int { return m[j] })
			}
			r += n
		}
	}
}

// Predict predicts the block, all planes.
func (b *Block) Predict() {
	f := b.F
	for p := 0; p < 3; p++ {
		if p > 0 && !b.Chroma {
			return
		}
		sx, sy := b.sub(p)
		w, h := most(4, Wide[b.Size]>>uint(sx)), most(4, High[b.Size]>>uint(sy))
		x, y := b.C>>uint(sx)*4, b.R>>uint(sy)*4
		if b.InterIntra {
			in := intra.Block{X: x, Y: y, W: w, H: h, Left: b.Left, Above: b.Above, Mode: []int{0, 1, 2, 9}[b.II], Filter: -1, Depth: f.Depth}
			if p > 0 {
				in.Left, in.Above = b.LeftC, b.AboveC
			}
			in.MaxX, in.MaxY = (f.Cols*4)>>uint(sx)-1, (f.Rows*4)>>uint(sy)-1
			for i, row := range intra.Predict(in, func(y, x int) int { return f.Cur[p][y][x] }) {
				for j, v := range row {
					b.set(p, y+i, x+j, v)
				}
			}
		}
		// blocks so small that one of chroma covers several
		across, down := 1, 1
		if p > 0 && sx == 1 && Wide[b.Size] == 4 {
			across = 2
		}
		if p > 0 && sy == 1 && High[b.Size] == 4 {
			down = 2
		}
		r, c := b.R-down+1, b.C-across+1
		for i := 0; i < down; i++ {
			for j := 0; j < across; j++ {
				if f.Cells[r+i][c+j].Ref[0] == 0 {
					across, down, r, c = 1, 1, b.R, b.C
				}
			}
		}
		pw, ph := w/across, h/down
		for i := 0; i < down; i++ {
			for j := 0; j < across; j++ {
				b.area(p, x+j*pw, y+i*ph, pw, ph, &f.Cells[r+i][c+j])
			}
		}
	}
}

// Size sets the size of the frame.
func (f *Frame) Size(w, h int) {
	f.W, f.Up, f.H = w, w, h
	f.Cols, f.Rows = (w+7)/8*2, (h+7)/8*2
}
