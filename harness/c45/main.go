//go:build !noshim

// C45: palettes and colour maps.
package main

import (
	"fmt"
	"sort"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/sym"
)

// Sizes for which palettes are allowed: log2 of width and height in samples, by block size.
var logs = map[int][2]int{3: {3, 3}, 4: {3, 4}, 5: {4, 3}, 6: {4, 4}, 7: {4, 5}, 8: {5, 4}, 9: {5, 5}, 10: {5, 6}, 11: {6, 5}, 12: {6, 6},
	16: {2, 4}, 17: {4, 2}, 18: {3, 5}, 19: {5, 3}, 20: {4, 6}, 21: {6, 4}}
var sizes = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 20, 21}

type work struct {
	t  *tilegroup.TileGroup
	s  *state.State
	k  *sym.Coder
	cm [64][64]int
}

func names() []string {
	n := []string{"PaletteYMode", "PaletteUVMode", "PaletteYSize", "PaletteUVSize"}
	for i := 2; i <= 8; i++ {
		n = append(n, fmt.Sprintf("PaletteSize%dYColor", i), fmt.Sprintf("PaletteSize%dUVColor", i))
	}
	return n
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	w.k = sym.New(w.s, names()...)
	// what is not next to the block: anything
	for p := range w.t.PaletteSizes {
		for r := range w.t.PaletteSizes[p] {
			for x := range w.t.PaletteSizes[p][r] {
				w.t.PaletteSizes[p][r][x] = 7
				for i := 0; i < 8; i++ {
					w.t.PaletteColors[p][r][x][i] = 100 + i
				}
			}
		}
	}
	c.Local["w"] = w
	return w
}

// plane is what is coded of one palette, Y or U.
type plane struct {
	above, left []int // the neighbours' palettes
	n           int   // colours; 0: none
	use         func(i int) int
	first       func(max int) int
	extra       int
	delta       func(i, bits int) int
}

type vplane struct {
	coded bool // as differences
	extra int
	value func(i, max int) int
	delta func(i, bits int) (int, int)
}

type block struct {
	size, row, col   int
	availU, availL   bool
	dc, chroma, uvdc bool
	depth            int
	p                [2]plane
	v                vplane
}

func zero(int) int         { return 0 }
func ones(i, bits int) int { return 1 }
func plain(n int) plane {
	return plane{n: n, use: zero, first: func(max int) int { return max / 3 }, extra: 1, delta: ones}
}

// merge lists the colours of two ordered palettes once each, in order.
func merge(a, b []int) []int {
	all := append(append([]int{}, a...), b...)
	sort.Ints(all)
	var out []int
	for i, x := range all {
		if i == 0 || x != all[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func bitsFor(x int) int {
	n := 0
	for 1<<uint(n) < x {
		n++
	}
	return n
}

// encode writes a palette and returns it.
func (p *plane) encode(k *sym.Coder, depth int, cache []int, chroma int) []int {
	var out []int
	for i := 0; i < len(cache) && len(out) < p.n; i++ {
		u := p.use(i)
		k.Lit(1, u)
		if u == 1 {
			out = append(out, cache[i])
		}
	}
	if len(out) == p.n {
		return out
	}
	top := 1<<uint(depth) - 1
	x := p.first(top)
	k.Lit(depth, x)
	out = append(out, x)
	if len(out) == p.n {
		sort.Ints(out)
		return out
	}
	k.Lit(2, p.extra)
	bits := depth - 3 + p.extra
	for i := 1; len(out) < p.n; i++ {
		d := p.delta(i, bits)
		k.Lit(bits, d)
		x += d + 1 - chroma
		if x > top {
			x = top
		}
		out = append(out, x)
		// differences that remain possible: from 1 or 0 up to the largest colour
		if n := bitsFor(top - x + chroma); n < bits {
			bits = n
		}
	}
	sort.Ints(out)
	return out
}

func (v *vplane) encode(k *sym.Coder, depth, n int) []int {
	max := 1 << uint(depth)
	var out []int
	if !v.coded {
		k.Lit(1, 0)
		for i := 0; i < n; i++ {
			x := v.value(i, max-1)
			k.Lit(depth, x)
			out = append(out, x)
		}
		return out
	}
	k.Lit(1, 1)
	k.Lit(2, v.extra)
	bits := depth - 4 + v.extra
	x := v.value(0, max-1)
	k.Lit(depth, x)
	out = append(out, x)
	for i := 1; i < n; i++ {
		d, neg := v.delta(i, bits)
		k.Lit(bits, d)
		if d != 0 {
			k.Lit(1, neg)
			if neg == 1 {
				d = -d
			}
		}
		x = (x + d + max) % max
		out = append(out, x)
	}
	return out
}

// decode encodes the block's palettes, has the real code decode them and compares.
func (w *work) decode(c *mc.Ch, b *block) *mc.Fail {
	k, t, s := w.k, w.t, w.s
	k.Reset()
	k.Trace = c.Tracing()
	ctx := logs[b.size][0] + logs[b.size][1] - 6
	var want [3][]int
	cache := func(p int) []int {
		var a, l []int
		if b.availU && b.row%16 != 0 {
			a = b.p[p].above
		}
		if b.availL {
			l = b.p[p].left
		}
		return merge(a, l)
	}
	if b.dc {
		n := 0
		if b.availU && len(b.p[0].above) > 0 {
			n++
		}
		if b.availL && len(b.p[0].left) > 0 {
			n++
		}
		if b.p[0].n == 0 {
			k.Sym("PaletteYMode", 0, ctx, n)
		} else {
			k.Sym("PaletteYMode", 1, ctx, n)
			k.Sym("PaletteYSize", b.p[0].n-2, ctx)
			want[0] = b.p[0].encode(k, b.depth, cache(0), 0)
		}
	}
	if b.chroma && b.uvdc {
		y := 0
		if len(want[0]) > 0 {
			y = 1
		}
		if b.p[1].n == 0 {
			k.Sym("PaletteUVMode", 0, y)
		} else {
			k.Sym("PaletteUVMode", 1, y)
			k.Sym("PaletteUVSize", b.p[1].n-2, ctx)
			want[1] = b.p[1].encode(k, b.depth, cache(1), 1)
			want[2] = b.v.encode(k, b.depth, b.p[1].n)
		}
	}
	br := k.Start()

	s.MiSize, s.MiRow, s.MiCol, s.AvailU, s.AvailL = b.size, b.row, b.col, b.availU, b.availL
	s.MiRows, s.MiCols = 64, 64
	t.HasChroma = b.chroma
	t.YMode, t.UVMode = 1, 13
	if b.dc {
		t.YMode = 0
	}
	if b.uvdc {
		t.UVMode = 0
	}
	t.PaletteSizeY, t.PaletteSizeUV = 0, 0
	for i := 0; i < 8; i++ {
		t.PaletteColorsY[i], t.PaletteColorsU[i], t.PaletteColorsV[i] = 9+i, 19+i, 29+i
	}
	for i := range t.PaletteCache {
		t.PaletteCache[i] = 5
	}
	lay := func(p, r, x int, pal []int) {
		if r < 0 || x < 0 {
			return
		}
		t.PaletteSizes[p][r][x] = len(pal)
		copy(t.PaletteColors[p][r][x][:], pal)
	}
	for p := 0; p < 2; p++ {
		lay(p, b.row-1, b.col, b.p[p].above)
		lay(p, b.row, b.col-1, b.p[p].left)
	}
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth = b.depth
	c.Steps++
	if c.Tracing() {
		c.Note("block size %d at row %d, column %d, above available %v, left available %v, DC prediction %v, chroma %v with DC prediction %v, depth %d", b.size, b.row, b.col, b.availU, b.availL, b.dc, b.chroma, b.uvdc, b.depth)
		for p := 0; p < 2; p++ {
			c.Note("palettes next to it, plane %d: above %v, left %v", p, b.p[p].above, b.p[p].left)
		}
		c.Note("coded: %v; palettes %v", k.Log, want)
	}
	fail := func() *mc.Fail {
		if e := mc.Catch(func() {
			tilegroup.VerifPaletteModeInfo(t, br, s, sh, uncompressedheader.UncompressedHeader{})
		}); e != nil {
			return mc.Failf("mode info: panic", "reading the palettes: %v", e)
		}
		if t.PaletteSizeY != len(want[0]) || t.PaletteSizeUV != len(want[1]) {
			return mc.Failf("sizes", "palettes have %d and %d colours, want %d and %d", t.PaletteSizeY, t.PaletteSizeUV, len(want[0]), len(want[1]))
		}
		for p, got := range [][]int{t.PaletteColorsY[:], t.PaletteColorsU[:], t.PaletteColorsV[:]} {
			for i, x := range want[p] {
				if got[i] != x {
					return mc.Failf(fmt.Sprintf("colours of plane %d", p), "plane %d: colours %v, want %v", p, got[:len(want[p])], want[p])
				}
			}
		}
		return k.Check(br)
	}()
	for p := 0; p < 2; p++ {
		lay(p, b.row-1, b.col, []int{100, 101, 102, 103, 104, 105, 106})
		lay(p, b.row, b.col-1, []int{100, 101, 102, 103, 104, 105, 106})
	}
	return fail
}

// order lists the colours of a palette as they are numbered at a position: those next to it first, by weight.
func order(m *[64][64]int, i, j, n int) (ord [8]int, ctx int) {
	var w [8]int
	total := 0
	if j > 0 {
		w[m[i][j-1]] += 2
	}
	if i > 0 {
		w[m[i-1][j]] += 2
	}
	if i > 0 && j > 0 {
		w[m[i-1][j-1]]++
	}
	k := 0
	var distinct [3]int
	for s := 5; s > 0; s-- {
		for x := 0; x < n; x++ {
			if w[x] == s {
				distinct[k] = s
				ord[k] = x
				k++
				total += s
			}
		}
	}
	for x := 0; x < n; x++ {
		if w[x] == 0 {
			ord[k] = x
			k++
		}
	}
	switch {
	case total == 2:
		return ord, 0
	case distinct == [3]int{2, 2, 1}:
		return ord, 1
	case distinct == [3]int{3, 2, 0}:
		return ord, 2
	case distinct == [3]int{4, 1, 0}:
		return ord, 3
	case distinct == [3]int{5, 0, 0}:
		return ord, 4
	}
	panic(fmt.Sprint("model: weights ", distinct))
}

// tokens: colours gives the colour of each position by plane, row and column.
type tokens struct {
	size       int
	n          [2]int
	hIn, wIn   int // 4x4 units of the block inside the frame
	subX, subY bool
	color      func(uv, i, j int) int
}

func (w *work) tokens(c *mc.Ch, b *tokens) *mc.Fail {
	k, t, s := w.k, w.t, w.s
	k.Reset()
	k.Trace = c.Tracing()
	wd, hg := 1<<uint(logs[b.size][0]), 1<<uint(logs[b.size][1])
	win, hin := 4*b.wIn, 4*b.hIn
	if win > wd {
		win = wd
	}
	if hin > hg {
		hin = hg
	}
	var want [2][64][64]int
	var dims [2][2]int
	for p := 0; p < 2; p++ {
		if b.n[p] == 0 {
			continue
		}
		m := &want[p]
		W, H, w4, h4 := wd, hg, win, hin
		if p == 1 {
			if b.subX {
				W, w4 = W/2, w4/2
			}
			if b.subY {
				H, h4 = H/2, h4/2
			}
			if W == 2 {
				W, w4 = 4, w4+2
			}
			if H == 2 {
				H, h4 = 4, h4+2
			}
		}
		dims[p] = [2]int{H, W}
		name := fmt.Sprintf("PaletteSize%d%sColor", b.n[p], [2]string{"Y", "UV"}[p])
		m[0][0] = b.color(p, 0, 0)
		k.NS(b.n[p], m[0][0])
		// along diagonals, each from top right to bottom left
		for d := 1; d <= h4+w4-2; d++ {
			for i := 0; i < h4; i++ {
				j := d - i
				if j < 0 || j >= w4 {
					continue
				}
				x := b.color(p, i, j)
				ord, ctx := order(m, i, j, b.n[p])
				at := 0
				for ord[at] != x {
					at++
				}
				k.Sym(name, at, ctx)
				m[i][j] = x
			}
		}
		for i := 0; i < H; i++ {
			for j := 0; j < W; j++ {
				y, x := i, j
				if y >= h4 {
					y = h4 - 1
				}
				if x >= w4 {
					x = w4 - 1
				}
				m[i][j] = m[y][x]
			}
		}
	}
	br := k.Start()
	s.MiSize, s.MiRow, s.MiCol = b.size, 16, 32
	s.MiRows, s.MiCols = 16+b.hIn, 32+b.wIn
	t.PaletteSizeY, t.PaletteSizeUV = b.n[0], b.n[1]
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = b.subX, b.subY
	c.Steps++
	if c.Tracing() {
		c.Note("block size %d (%dx%d), %dx%d inside the frame, %v colours, subsampling %v %v", b.size, wd, hg, win, hin, b.n, b.subX, b.subY)
		for p := 0; p < 2; p++ {
			for i := 0; i < dims[p][0]; i++ {
				c.Note("plane %d row %d: %v", p, i, want[p][i][:dims[p][1]])
			}
		}
	}
	if e := mc.Catch(func() { tilegroup.VerifPaletteTokens(t, br, s, sh, uncompressedheader.UncompressedHeader{}) }); e != nil {
		return mc.Failf("colour map: panic", "reading the colour map: %v", e)
	}
	for p := 0; p < 2; p++ {
		for i := 0; i < dims[p][0]; i++ {
			for j := 0; j < dims[p][1]; j++ {
				if g := tilegroup.VerifColorMap(t, p == 1, i, j); g != want[p][i][j] {
					return mc.Failf(fmt.Sprintf("colour map %d", p), "map %d, row %d, column %d: %d, want %d", p, i, j, g, want[p][i][j])
				}
			}
		}
	}
	return k.Check(br)
}

// ordered picks an ordered palette over v values; steps of 0 are possible for chroma.
func ordered(c *mc.Ch, n, v, least int) []int {
	out := []int{}
	x := 0
	for i := 0; i < n; i++ {
		lo := x
		if i > 0 {
			lo += least
		}
		rest := (n - 1 - i) * least
		x = lo + c.All(v-lo-rest)
		out = append(out, x*9+2)
	}
	return out
}

func main() {
	r := mc.Start()
	th := r.Thorough()
	pick := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	depths := []int{8, 10, 12}
	spread := func(c *mc.Ch, top int) int { return []int{0, 1, top / 2, top - 1, top}[c.All(5)] }
	r.Explore(
		mc.Scenario{Name: "presence and number of colours", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := &block{size: sizes[c.All(len(sizes))], row: []int{16, 17, 31, 8}[c.All(4)], col: []int{16, 17, 31}[c.Pick(3, 1)], depth: 8, v: vplane{value: func(i, m int) int { return i * 7 }}}
			b.availU, b.availL = c.All(2) == 1, c.All(2) == 1
			b.dc, b.chroma = c.All(2) == 1, c.All(2) == 1
			if b.chroma {
				b.uvdc = c.All(2) == 1
			}
			for p := 0; p < 2; p++ {
				n := 0
				if c.All(2) == 1 {
					n = 2 + c.Pick(7, b2i(!th))
				}
				b.p[p] = plain(n)
				b.p[p].above = [][]int{{}, {1, 4}, {3, 4, 5, 6, 7, 8, 9, 10}}[c.Pick(3, p)]
				b.p[p].left = [][]int{{}, {2, 4, 8}, {5, 6, 8, 9, 10, 11, 12, 15}}[c.Pick(3, p)]
			}
			return w.decode(c, b)
		}, Bound: 2},
		mc.Scenario{Name: "colours of neighbours", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := &block{size: 6, row: 16 + c.All(2), col: 20, depth: 8, dc: true, chroma: true, uvdc: true, v: vplane{value: func(i, m int) int { return i * 7 }}}
			b.availU, b.availL = c.All(2) == 1, c.All(2) == 1
			p := c.All(2)
			b.p[p] = plain(2 + c.All(4))
			b.p[1-p] = plain(0)
			lens := []int{0, 2, 3}
			b.p[p].above = ordered(c, lens[c.All(3)], pick(5, 6), 1-p)
			b.p[p].left = ordered(c, lens[c.All(3)], pick(5, 6), 1-p)
			b.p[p].use = func(int) int { return c.All(2) }
			return w.decode(c, b)
		}},
		mc.Scenario{Name: "many colours of neighbours", Run: func(c *mc.Ch) *mc.Fail {
			// all ways in which the colours above and to the left can lie between each other
			w := get(c)
			b := &block{size: 6, row: 17, col: 20, depth: 8, dc: true, chroma: true, uvdc: true, availU: true, availL: true, v: vplane{value: func(i, m int) int { return i * 7 }}}
			p := c.All(2)
			b.p[p], b.p[1-p] = plain(8), plain(0)
			na, nl := 2+c.All(pick(5, 7)), 2+c.All(pick(5, 7))
			x := 3
			for na > 0 || nl > 0 {
				which := 0 // above
				switch {
				case na == 0:
					which = 1
				case nl > 0:
					which = c.All(3)
				}
				if which != 1 {
					b.p[p].above = append(b.p[p].above, x)
					na--
				}
				if which != 0 {
					b.p[p].left = append(b.p[p].left, x)
					nl--
				}
				x += 5
			}
			all := c.All(2)
			b.p[p].use = func(int) int { return all ^ c.Pick(2, 1) }
			return w.decode(c, b)
		}, Bound: b2i(th)},
		mc.Scenario{Name: "coded colours", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := &block{size: 6, row: 16, col: 20, depth: depths[c.All(3)], dc: true, chroma: true, uvdc: true, availL: true, v: vplane{value: func(i, m int) int { return m - i }}}
			p := c.All(2)
			b.p[p], b.p[1-p] = plain(2+c.All(7)), plain(0)
			used := c.All(3) // of a cache of two colours
			b.p[p].left = []int{1 << uint(b.depth-1), 1<<uint(b.depth) - 1}
			b.p[p].use = func(i int) int { return b2i(i < used) }
			b.p[p].extra = c.All(4)
			b.p[p].first = func(top int) int { return spread(c, top) }
			b.p[p].delta = func(i, bits int) int {
				top := 1<<uint(bits) - 1
				list := []int{0, top, top / 2, 1}
				if bits < 2 {
					list = list[:1<<uint(bits)]
				}
				if i <= pick(3, 4) {
					return list[c.All(len(list))]
				}
				return list[c.Pick(len(list), 1)]
			}
			return w.decode(c, b)
		}, Bound: pick(1, 2)},
		mc.Scenario{Name: "V colours", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := &block{size: 6, row: 16, col: 20, depth: depths[c.All(3)], chroma: true, uvdc: true}
			b.dc = c.All(2) == 1
			b.p[0], b.p[1] = plain(3), plain(2+c.All(7))
			b.v.coded = c.All(2) == 1
			b.v.extra = 0
			if b.v.coded {
				b.v.extra = c.All(4)
			}
			b.v.value = func(i, max int) int {
				if i < pick(3, 4) {
					return spread(c, max)
				}
				return (i * 57) & max
			}
			b.v.delta = func(i, bits int) (int, int) {
				top := 1<<uint(bits) - 1
				list := []int{0, top, top / 2, 1}
				if bits < 2 {
					list = list[:1<<uint(bits)]
				}
				var d int
				if i <= pick(3, 4) {
					d = list[c.All(len(list))]
				} else {
					d = list[c.Pick(len(list), 1)]
				}
				if d == 0 {
					return 0, 0
				}
				return d, c.All(2)
			}
			return w.decode(c, b)
		}, Bound: pick(1, 2)},
		mc.Scenario{Name: "colour contexts", Run: func(c *mc.Ch) *mc.Fail {
			// a corner of a block of 4x4 positions inside the frame: the first of them free, the rest in a pattern
			w := get(c)
			uv := c.All(2)
			n := 2 + c.All(7)
			b := &tokens{size: 3, hIn: 1, wIn: 1}
			b.n[uv] = n
			mul := c.All(2)
			left := 6
			if n > 6 {
				left = pick(5, 6)
			}
			if n < 5 {
				left = pick(8, 10)
			}
			if n == 2 {
				left = 16
			}
			b.color = func(p, i, j int) int {
				if left > 0 {
					left--
					return c.All(n)
				}
				return (i*(2+mul) + j + i*j*mul) % n
			}
			return w.tokens(c, b)
		}},
		mc.Scenario{Name: "shapes of colour maps", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := &tokens{size: sizes[c.All(len(sizes))]}
			wd, hg := 1<<uint(logs[b.size][0]-2), 1<<uint(logs[b.size][1]-2)
			b.wIn, b.hIn = 1+c.All(wd+1), 1+c.All(hg+1) // one more: the block ends before the frame does
			switch c.All(4) {
			case 1:
				b.subX = true
			case 2:
				b.subX, b.subY = true, true
			case 3:
				b.subY = true // not a format, but independent all the same
			}
			which := 1 + c.All(3)
			for p := 0; p < 2; p++ {
				if which>>uint(p)&1 == 1 {
					b.n[p] = []int{2, 3, 4, 5, 6, 7, 8}[(c.Pick(7, 1)+3*p)%7]
				}
			}
			kind := c.Pick(3, 1)
			b.color = func(p, i, j int) int {
				n := b.n[p]
				switch kind {
				case 0:
					return (i*i + 3*j + i*j/3) % n
				case 1:
					return n - 1
				}
				return (i ^ j) % n
			}
			return w.tokens(c, b)
		}, Bound: b2i(th)},
	)
	r.Bound("16 sizes x neighbours' palettes x availability x presence x numbers of colours; all ordered palettes of up to 3 of %d colours on both sides with every use of them; all interleavings of up to %d colours; 3 bit depths x 2..8 colours x extremes of the first %d differences; colour maps of 2 to 8 colours free in their first positions; every part of every size inside the frame x subsampling", pick(5, 6), pick(6, 8), pick(3, 4))
	r.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
